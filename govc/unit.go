package main

// Verification units: contracts of functions and lemmas, and their obligations.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	con   *Contract
	x     *exec
	obls  []*Obligation
	seen  map[string]bool
	invs  map[string][]string
	label string
	wg    sync.WaitGroup
	to    time.Duration
	reach int
	cover map[string]int // clause -> 0 none, 1 possible
	syms  map[string]*Term
	chr   int64 // the decade of the case being verified, -1 for none
	fa    map[string]Val
	hints map[string]string
	entry *sEnv // the unit's parameters in its entry state
	mu    sync.Mutex
}

type Obligation struct {
	Name    string  `json:"name"`
	Kind    string  `json:"kind"`
	What    string  `json:"what"`
	Case    string  `json:"case,omitempty"`
	Verdict string  `json:"verdict"`
	By      string  `json:"by"`
	Secs    float64 `json:"secs"`
	Model   string  `json:"model,omitempty"`
	Trace   string  `json:"trace,omitempty"`
	query   string
}

type UnitResult struct {
	Unit      string              `json:"unit"`
	Fn        string              `json:"fn"`
	Obls      []*Obligation       `json:"obligations"`
	Trivial   int                 `json:"trivial"`
	Err       string              `json:"err,omitempty"`
	Paths     int                 `json:"paths"`
	Secs      float64             `json:"secs"`
	SessSecs  float64             `json:"session_secs"`
	Used      []string            `json:"contracts_used"`
	Inlined   []string            `json:"inlined"`
	Externals []string            `json:"externals"`
	Invs      map[string][]string `json:"loop_invariants"`
	Vacuous   []string            `json:"vacuous,omitempty"`
	Props     []string            `json:"props"`
	trivial   int
}

var trivialCount int

// chunkI of chunkN: the cases of a split this process verifies
var chunkI, chunkN int64

func (u *Unit) oblige(kind, what string, st *State, cond *Term) {
	if cond.op == "true" {
		trivialCount++
		return
	}
	for _, p := range st.pc {
		if p == cond {
			trivialCount++
			return
		}
		if p.op == "false" {
			return
		}
	}
	q := smtQuery(append(append([]*Term{}, st.pc...), Not(cond)))
	key := kind + what + q
	if u.seen[key] {
		return
	}
	u.seen[key] = true
	o := &Obligation{Name: fmt.Sprintf("%s/%s/%s", u.con.name, kind, what), Kind: kind, What: what, Case: u.label, query: q}
	if debugTrace {
		o.Trace = strings.Join(st.trace, " ")
	}
	u.obls = append(u.obls, o)
	if r := u.x.inc.check(q, 150); r == "unsat" {
		o.Verdict, o.By = "unsat", "z3 (incremental session)"
		return
	}
	if len(u.obls) > 40000 {
		panic(unsupported("too many obligations"))
	}
	u.wg.Add(1)
	go func() {
		defer u.wg.Done()
		u.mu.Lock()
		h := u.hints[kind+what]
		u.mu.Unlock()
		r := discharge(q, u.to, h)
		o.Verdict, o.By, o.Secs = r.verdict, r.by, r.dur.Seconds()
		if r.verdict == "unsat" {
			u.mu.Lock()
			u.hints[kind+what] = r.by
			u.mu.Unlock()
			if os.Getenv("GOVC_KEEP") == "" {
				o.query = ""
			}
		} else if d := os.Getenv("GOVC_DUMPDIR"); d != "" {
			os.MkdirAll(d, 0755)
			os.WriteFile(fmt.Sprintf("%s/%s_%p.smt2", d, clean(o.Name), o), []byte("(set-logic ALL)\n"+q+"(check-sat)\n(get-model)\n"), 0644)
		}
		if r.verdict == "sat" {
			o.Model = modelOf(q)
		}
	}()
}

var debugTrace = os.Getenv("GOVC_TRACE") != ""

func modelOf(q string) string {
	m := getModel(q, 5*time.Second)
	// keep the scalar constants only
	var out []string
	ls := strings.Split(m, "\n")
	for i := 0; i < len(ls); i++ {
		l := strings.TrimSpace(ls[i])
		if strings.HasPrefix(l, "(define-fun |") && strings.Contains(l, "() Int") || strings.HasPrefix(l, "(define-fun |") && strings.Contains(l, "() Bool") {
			n := l[len("(define-fun |"):]
			n = n[:strings.Index(n, "|")]
			v := ""
			if k := strings.Index(l, "() Int"); k >= 0 {
				v = strings.TrimSpace(l[k+6:])
			} else if k := strings.Index(l, "() Bool"); k >= 0 {
				v = strings.TrimSpace(l[k+7:])
			}
			if v == "" && i+1 < len(ls) {
				i++
				v = strings.TrimSpace(ls[i])
			}
			v = strings.TrimSuffix(v, ")")
			out = append(out, n+"="+v)
		}
	}
	if len(out) > 60 {
		out = out[:60]
	}
	return strings.Join(out, " ")
}

func newExec(P *Program, u *Unit) *exec {
	x := &exec{P: P, unit: u, inc: newIncSolver(), used: map[string]bool{}, inlined: map[string]bool{}, externals: map[string]bool{},
		intrinsics: map[string]bool{}, globalsUsed: map[string]bool{}, satCache: map[string]string{}, noModular: map[string]bool{}, local: map[string]*Contract{},
		loopCache: map[string]*loopCacheE{}}
	return x
}

func verifyUnit(P *Program, c *Contract) (res *UnitResult) {
	t0 := time.Now()
	res = &UnitResult{Unit: c.name, Fn: c.fn, Props: c.props}
	to := 20 * time.Second
	if c.timeout > 0 {
		to = time.Duration(c.timeout) * time.Second
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		to *= 3
	}
	u := &Unit{con: c, seen: map[string]bool{}, invs: map[string][]string{}, to: to, cover: map[string]int{}, hints: map[string]string{}, chr: -1, fa: map[string]Val{}}
	x := newExec(P, u)
	u.x = x
	curExec = x
	trivialCount = 0
	defer x.inc.close()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if us, ok := r.(unsupported); ok {
					res.Err = us.Error()
					if debug_ := os.Getenv("GOVC_STACK"); debug_ != "" {
						fmt.Fprintln(os.Stderr, string(debug.Stack()))
					}
				} else {
					res.Err = fmt.Sprintf("internal: %v", r)
					fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
				}
			}
		}()
		for _, n := range c.inline {
			if f := P.fn(n); f != nil {
				x.noModular[fnName(f)] = true
			} else {
				x.noModular[n] = true
			}
		}
		for _, n := range c.use {
			var uc *Contract
			for _, o := range P.specs.contracts {
				if o.name == n {
					uc = o
				}
			}
			if uc == nil || P.fn(uc.fn) == nil {
				panic(unsupported("using " + n + ": no such contract"))
			}
			x.local[fnName(P.fn(uc.fn))] = uc
		}
		if c.opts["ghostsums"] != "" {
			x.onHeapStore = ghostSums
		}
		x.storeLevel = c.opts["storelevel"] != ""
		x.abstract = c.opts["abstract"]
		if c.opts["maxpaths"] != "" {
			fmt.Sscan(c.opts["maxpaths"], &x.maxPaths)
		}
		var cases []map[string]int64
		cases = []map[string]int64{{}}
		for _, s := range c.splits {
			var n []map[string]int64
			for _, m := range cases {
				for k := s.lo; k <= s.hi; k++ {
					mm := map[string]int64{s.text: k}
					for a, b := range m {
						mm[a] = b
					}
					n = append(n, mm)
				}
			}
			cases = n
		}
		for ci, m := range cases {
			x.sqrtArgs = nil
			if chunkN > 1 && int64(ci)%chunkN != chunkI {
				continue
			}
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			u.label = ""
			for _, k := range ks {
				u.label += fmt.Sprintf("%s=%d ", k, m[k])
			}
			if c.lemma {
				u.runLemma(m)
			} else {
				u.runFunc(m)
			}
		}
	}()
	u.wg.Wait()
	res.Obls = u.obls
	res.Trivial = trivialCount
	res.Paths = u.reach
	if res.Err == "" && u.reach == 0 {
		res.Vacuous = append(res.Vacuous, "no execution reaches the end of "+c.name)
	}
	for n, v := range u.cover {
		if v == 0 {
			res.Vacuous = append(res.Vacuous, "cover "+n+" is unreachable")
		}
	}
	sort.Strings(res.Vacuous)
	for k := range x.used {
		res.Used = append(res.Used, k)
	}
	for k := range x.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range x.externals {
		res.Externals = append(res.Externals, k)
	}
	for k := range x.intrinsics {
		res.Externals = append(res.Externals, "assumed contract: "+k)
	}
	sort.Strings(res.Used)
	sort.Strings(res.Inlined)
	sort.Strings(res.Externals)
	res.Invs = u.invs
	res.SessSecs = x.inc.t.Seconds()
	res.Secs = time.Since(t0).Seconds()
	return res
}

// symbolic argument for a parameter
func (u *Unit) argVal(st *State, t types.Type, name string) Val {
	x := u.x
	switch named(t) {
	case "defund/x/dex/keeper.Keeper":
		v := x.freshVal(st, t, name)
		return v
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if isNum(p.Elem()) || strings.HasSuffix(named(p.Elem()), "types.Params") {
			// pointer to a value object of its own
			c := newCell(name, p.Elem())
			st.cells[c] = x.freshVal(st, p.Elem(), name)
			return Ptr{Cell: c, T: p.Elem()}
		}
		if _, isStruct := p.Elem().Underlying().(*types.Struct); isStruct && strings.Contains(named(p.Elem()), "types.Msg") {
			c := newCell(name, p.Elem())
			st.cells[c] = x.freshVal(st, p.Elem(), name)
			return Ptr{Cell: c, T: p.Elem()}
		}
		r := Fresh(name, SInt)
		st.assume(Gt(r, I(0)))
		return Ptr{Ref: r, T: p.Elem()}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		r := Fresh(name, SInt)
		st.assume(Gt(r, I(0)))
		return Iface{Ref: r, T: t}
	}
	if _, ok := t.Underlying().(*types.Slice); ok && !isBytes(t) && !isBag(t) {
		v := x.freshVal(st, t, name).(*Slice)
		st.assume(Ge(v.Id, I(0)))
		return v
	}
	return x.freshVal(st, t, name)
}

func (u *Unit) runFunc(cs map[string]int64) {
	x, c := u.x, u.con
	fn := x.P.fn(c.fn)
	if fn == nil {
		panic(unsupported("function not found: " + c.fn))
	}
	c.full = fnName(fn)
	if c.opts["effects"] != "" {
		u.runEffects(fn)
		return
	}
	st := newState()
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(c.params) {
			n = c.params[i]
		}
		if k, ok := cs[n]; ok {
			args = append(args, I(k))
			continue
		}
		v := u.argVal(st, p.Type(), n)
		if sl, ok := v.(*Slice); ok && sl.Id != nil {
			st.assume(Ge(sl.Id, I(0))) // objects that exist at entry have non-negative identities
		}
		args = append(args, v)
	}
	e := c.env(x, st, fn, args)
	u.initGhosts(st)
	u.chr = -1
	for _, n := range c.foralls {
		u.fa[n] = Fresh(n, SInt)
		e.vars[n] = u.fa[n]
	}
	for _, r := range c.requires {
		// a requirement may speak of a forall name: the contract is then
		// proved for each value under what is required for that value
		st.assume(e.boolean(r.expr))
	}
	for _, s := range c.splits {
		if u.decade(e, st, s, cs) {
			continue
		}
		if id, ok := s.expr.(*ast.Ident); ok && e.vars[id.Name] != nil {
			if t, ok := e.vars[id.Name].(*Term); ok && t.isConst() {
				continue
			}
		}
		st.assume(Eq(e.term(s.expr), I(cs[s.text])))
	}
	old := st.clone()
	u.entry = c.env(x, old, fn, args)
	u.entry.old = old
	x.safety = c.NoPanic
	if x.onHeapStore != nil {
		x.onHeapStore = ghostSums
	}
	outs := x.callFn(st, fn, args, nil)
	x.safety = false
	dbg("%s: %d outcomes, %d steps, %d queries %.1fs", c.name, len(outs), x.steps, x.inc.n, x.inc.t.Seconds())
	for _, o := range outs {
		if o.kind != oReturn {
			continue
		}
		if !x.feasible(o.st, tTrue) {
			continue
		}
		u.reach++
		e2 := c.env(x, o.st, fn, args)
		e2.old = old
		c.bindResults(e2, fn, o.vals)
		for n, v := range u.fa {
			e2.vars[n] = v
		}
		for _, q := range c.ensures {
			u.assertClause(e2, o.st, q)
		}
		if c.Modular {
			u.frame(o.st, old)
		}
	}
}

// frame: outside its modifies clause a modular contract's function leaves
// every object that existed before the call unchanged.
func (u *Unit) frame(st, old *State) {
	for _, e := range st.hav[len(old.hav):] {
		ok := false
		for _, m := range u.con.modifies {
			if m == "heap" && (e.prefix == "!store" || !strings.HasPrefix(e.prefix, "kv.") && !strings.HasPrefix(e.prefix, "$") && !strings.HasPrefix(e.prefix, "param.")) {
				ok = true
			}
			if strings.HasPrefix(m, "*") && strings.HasPrefix(e.prefix, m[1:]) {
				ok = true
			}
		}
		if !ok {
			u.oblige("frame", "heaps "+e.prefix+"…", st, tFalse)
		}
	}
	for _, n := range sortedKeys(st.heap) {
		h := st.heap[n]
		o := old.heap[n]
		if o == nil {
			o = old.hget(n, heapSorts[n])
		}
		if h == o || u.con.mayModify(n) {
			continue
		}
		t := h
		for t != o && t.op == "store" && t.args[1].isConst() && t.args[1].ival.Sign() < 0 {
			t = t.args[0]
		}
		if t == o {
			continue
		}
		if !h.sort.isArr() {
			u.oblige("frame", n, st, Eq(h, o))
			continue
		}
		k := Fresh("frame", SInt)
		s2 := st.clone()
		s2.assume(Ge(k, I(0)))
		u.oblige("frame", n, s2, Eq(Select(h, k), Select(o, k)))
	}
}

func (c *Contract) mayModify(n string) bool {
	for _, m := range c.modifies {
		switch {
		case m == "heap":
			if inRegion(n, "!store") {
				return true
			}
		case m == "orders":
			for _, f := range []string{"OpenAmount", "PaidOfferCoinAmount", "ReceivedDemandCoinAmount"} {
				if strings.HasPrefix(n, "amm.BaseOrder."+f+"#") {
					return true
				}
			}
			for _, g := range ghostNames {
				if n == g {
					return true
				}
			}
		case strings.HasPrefix(m, "*"):
			if strings.HasPrefix(n, m[1:]) {
				return true
			}
		case m == n:
			return true
		}
	}
	return false
}

// assertClause: every conjunct / implication of a postcondition is an obligation
func (u *Unit) assertClause(e *sEnv, st *State, q Clause) {
	if strings.HasPrefix(q.name, "cover") {
		s2 := st.clone()
		en := *e
		en.st = s2
		t := en.boolean(q.expr)
		if _, ok := u.cover[q.name]; !ok {
			u.cover[q.name] = 0
		}
		if u.cover[q.name] == 0 && u.x.feasibleMs(s2, t, 3000) {
			u.cover[q.name] = 1
		}
		return
	}
	s2 := st.clone()
	en := *e
	en.st = s2
	// imp(a, b) as the top connective: skip when a is impossible on this path
	if c, ok := q.expr.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "imp" && len(c.Args) == 2 {
			a := en.boolean(c.Args[0])
			if !u.x.feasible(s2, a) {
				trivialCount++
				return
			}
			s2.assume(a)
			u.conj(&en, s2, q, c.Args[1])
			return
		}
	}
	u.conj(&en, s2, q, q.expr)
}

func (u *Unit) conj(e *sEnv, st *State, q Clause, ex ast.Expr) {
	if b, ok := ex.(*ast.BinaryExpr); ok && b.Op.String() == "&&" {
		u.conj(e, st, q, b.X)
		u.conj(e, st, q, b.Y)
		return
	}
	if p, ok := ex.(*ast.ParenExpr); ok {
		u.conj(e, st, q, p.X)
		return
	}
	t := e.boolean(ex)
	if t.op == "and" {
		for _, a := range t.args {
			u.oblige("ensures", q.name, st, a)
		}
		return
	}
	u.oblige("ensures", q.name, st, t)
}

func (u *Unit) initGhosts(st *State) {
	for _, g := range ghostNames {
		st.heap[g] = Sym("H0:"+g, SInt)
		heapSorts[g] = SInt
	}
}

// ghostSums keeps per-direction totals over all orders.
func ghostSums(st *State, name string, h, ref, v *Term) {
	var g string
	switch name {
	case "amm.BaseOrder.PaidOfferCoinAmount#v":
		g = "$paid"
	case "amm.BaseOrder.ReceivedDemandCoinAmount#v":
		g = "$recv"
	case "amm.BaseOrder.OpenAmount#v":
		g = "$open"
	default:
		return
	}
	dir := Select(st.hget("amm.BaseOrder.Direction", arrSort(SInt)), ref)
	d := Sub(v, Select(h, ref))
	isBuy := Eq(dir, I(1))
	for _, p := range st.pc {
		if p == isBuy {
			isBuy = tTrue
			break
		}
		if p == Not(isBuy) {
			isBuy = tFalse
			break
		}
	}
	b, s := g+"Buy", g+"Sell"
	if isBuy != tFalse {
		st.hset(b, Add(st.hget(b, SInt), Ite(isBuy, d, I(0))))
	}
	if isBuy != tTrue {
		st.hset(s, Add(st.hget(s, SInt), Ite(isBuy, I(0), d)))
	}
}

func (u *Unit) typeOf(n string) types.Type {
	switch n {
	case "int":
		return types.Typ[types.Int]
	case "uint":
		return types.Typ[types.Uint64]
	case "u32":
		return types.Typ[types.Uint32]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "Int":
		return u.x.P.typ("cosmossdk.io/math", "Int")
	case "Dec":
		return u.x.P.typ("cosmossdk.io/math", "LegacyDec")
	case "ctx":
		return u.x.P.typ("github.com/cosmos/cosmos-sdk/types", "Context")
	case "Coin", "Coins", "AccAddress":
		return u.x.P.typ("github.com/cosmos/cosmos-sdk/types", n)
	case "keeper":
		return u.x.P.namedType("defund/x/dex/keeper", "Keeper")
	case "Order":
		return u.x.P.namedType("defund/x/dex/types", "Order")
	}
	if b, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
		return b.Type()
	}
	if strings.HasPrefix(n, "sdk.") {
		return u.x.P.typ("github.com/cosmos/cosmos-sdk/types", n[4:])
	}
	ptr := strings.HasPrefix(n, "*")
	n = strings.TrimPrefix(n, "*")
	parts := strings.SplitN(n, ".", 2)
	if len(parts) == 2 {
		for _, path := range rootPkgs {
			if path == "defund/types" {
				continue
			}
			p := u.x.P.pkgs[path]
			if p.Pkg.Name() == parts[0] {
				if t := u.x.P.namedType(path, parts[1]); t != nil {
					if ptr {
						return types.NewPointer(t)
					}
					return t
				}
			}
		}
	}
	panic(unsupported("spec type " + n))
}

func (u *Unit) runLemma(cs map[string]int64) {
	x, c := u.x, u.con
	st := newState()
	u.initGhosts(st)
	e := &sEnv{x: x, st: st, old: st, vars: map[string]Val{}, snaps: map[string]*State{}}
	u.lemmaStep(e, st, 0, cs)
	_ = c
}

func (u *Unit) lemmaStep(e *sEnv, st *State, i int, cs map[string]int64) {
	x, c := u.x, u.con
	for ; i < len(c.steps); i++ {
		s := c.steps[i]
		if i > 0 && s.kind != "var" && c.steps[i-1].kind == "var" {
			u.chr = -1
			for _, sp := range c.splits {
				e.st = st
				u.decade(e, st, sp, cs)
			}
		}
		switch s.kind {
		case "var":
			if k, ok := cs[s.vname]; ok {
				e.vars[s.vname] = I(k)
				continue
			}
			e.vars[s.vname] = u.argVal(st, u.typeOf(s.vtype), s.vname)
		case "let":
			e.st = st
			e.vars[s.vname] = e.eval(s.c.expr)
		case "snapshot":
			e.snaps[s.vname] = st.clone()
		case "assume":
			e.st = st
			st.assume(e.boolean(s.c.expr))
		case "assert":
			e.st = st
			if s.c.name == "" {
				s.c.name = fmt.Sprintf("assert%d", i)
			}
			u.assertClause(e, st, s.c)
			// asserted facts may be used afterwards
			if !strings.HasPrefix(s.c.name, "cover") {
				en := *e
				st.assume(en.boolean(s.c.expr))
			}
		case "call":
			fn := x.P.fn(s.fn)
			if fn == nil {
				panic(unsupported("function not found: " + s.fn))
			}
			e.st = st
			var args []Val
			for k, a := range s.args {
				v := e.eval(a)
				args = append(args, x.adapt(st, v, fn.Params[k].Type()))
			}
			outs := x.callStatic(st, fn, args, nil, "lemma "+c.name)
			for _, o := range outs {
				if o.kind != oReturn || !x.feasible(o.st, tTrue) {
					continue
				}
				e2 := *e
				e2.vars = map[string]Val{}
				for k, v := range e.vars {
					e2.vars[k] = v
				}
				e2.snaps = map[string]*State{}
				for k, v := range e.snaps {
					e2.snaps[k] = v
				}
				for k, r := range s.res {
					if r != "_" {
						e2.vars[r] = o.vals[k]
					}
				}
				u.lemmaStep(&e2, o.st, i+1, cs)
			}
			return
		}
	}
	u.reach++
}

// adapt fits a spec value to a parameter type.
func (x *exec) adapt(st *State, v Val, t types.Type) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isPtr := v.(Ptr); !isPtr {
			if isNum(p.Elem()) || true {
				c := newCell("lemma", p.Elem())
				st.cells[c] = x.adapt(st, v, p.Elem())
				return Ptr{Cell: c, T: p.Elem()}
			}
		}
		return v
	}
	if tm, ok := v.(*Term); ok && isNum(t) {
		return mkN(tm)
	}
	if p, ok := v.(Ptr); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return Iface{Dyn: types.NewPointer(p.T), V: p, T: t}
		}
		if _, isS := t.Underlying().(*types.Struct); isS {
			return x.load(st, p)
		}
	}
	return v
}

func (r *UnitResult) ok() bool {
	if r.Err != "" || len(r.Vacuous) > 0 {
		return false
	}
	for _, o := range r.Obls {
		if o.Verdict != "unsat" {
			return false
		}
	}
	return true
}

func (r *UnitResult) print() {
	bad := 0
	for _, o := range r.Obls {
		if o.Verdict != "unsat" {
			bad++
		}
	}
	fmt.Printf("%-40s obligations %d (+%d immediate) failed %d paths %d %.1fs %s\n", r.Unit, len(r.Obls), r.Trivial, bad, r.Paths, r.Secs, r.Err)
	for _, v := range r.Vacuous {
		fmt.Println("    VACUOUS", v)
	}
	for _, o := range r.Obls {
		if o.Verdict != "unsat" {
			m := o.Model
			if len(m) > 600 {
				m = m[:600]
			}
			fmt.Printf("    %s %s %s (%.1fs) %s %s\n", o.Verdict, o.Name, o.Case, o.Secs, m, o.Trace)
		}
	}
	if os.Getenv("GOVC_V") != "" {
		for _, o := range r.Obls {
			fmt.Printf("      %s %s by %s %.1fs\n", o.Verdict, o.Name, o.By, o.Secs)
		}
		b, _ := json.MarshalIndent(map[string]interface{}{"used": r.Used, "inlined": r.Inlined, "ext": r.Externals, "invs": r.Invs}, "", " ")
		fmt.Println(string(b))
	}
}

var _ ssa.Value

// decade: "split chr(e) in lo..hi" fixes 10^k <= e < 10^(k+1).
func (u *Unit) decade(e *sEnv, st *State, s split, cs map[string]int64) bool {
	c, ok := s.expr.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "chr" {
		return false
	}
	k := cs[s.text]
	v := e.term(c.Args[0])
	st.assume(And(Le(pow10(k), v), Lt(v, pow10(k+1))))
	u.chr = k
	return true
}
