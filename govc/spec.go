package main

// Contract files.  Each line starts with a keyword:
//
//   property C04                      following units belong to these properties
//   define name(a, b) = expr          macro
//   func amm.Deposit as deposit       contract of a function of the repository
//     params rx ry ps x y             (optional) positional names
//     results ax ay pc                (optional)
//     requires name: expr
//     ensures name: expr
//     modular | merge | nopanic | pure | noverify
//     modifies region ...
//     loop 0: expr                    loop invariant (an unknown variable drops it)
//   lemma name                        a composition of calls
//     var t dec, prec int
//     assume expr
//     call i := amm.TickToIndex(t, prec)
//     assert name: expr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	name string
	text string
	expr ast.Expr
	def  bool // a definitional assumption of a result (pure function)
}

type invX struct {
	text string
	expr ast.Expr
}

type lemmaStep struct {
	kind  string // assume assert call var split
	c     Clause
	fn    string
	res   []string
	args  []ast.Expr
	vname string
	vtype string
}

type Contract struct {
	name     string
	fn       string
	full     string
	props    []string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	Modular  bool
	Merge    bool
	Pure     bool
	NoPanic  bool
	NoVerify bool
	modifies []string
	reads    []ast.Expr
	LoopInv  map[int][]invX
	steps    []lemmaStep
	lemma    bool
	splits   []split
	inline   []string
	opts     map[string]string
	foralls  []string
	file     string
	line     int
	timeout  int
	use      []string
	loopIn   map[string]map[int][]invX
}

type split struct {
	expr   ast.Expr
	text   string
	lo, hi int64
	cases  []Clause
}

type macro struct {
	params []string
	body   ast.Expr
}

type specSet struct {
	contracts []*Contract
	macros    map[string]*macro
}

func parseSpecs(dir string) (*specSet, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	S := &specSet{macros: map[string]*macro{}}
	for _, f := range fs {
		if err := S.parseFile(f); err != nil {
			return nil, err
		}
	}
	return S, nil
}

func (S *specSet) parseFile(f string) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var props []string
	var cur *Contract
	lines := strings.Split(string(data), "\n")
	for i := 0; i < len(lines); i++ {
		ln := i + 1
		l := lines[i]
		for strings.HasSuffix(strings.TrimSpace(l), "\\") && i+1 < len(lines) {
			i++
			l = strings.TrimSuffix(strings.TrimSpace(l), "\\") + " " + lines[i]
		}
		if k := strings.Index(" "+l, " #"); k >= 0 {
			l = l[:k]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		kw, rest := l, ""
		if k := strings.IndexAny(l, " \t"); k >= 0 {
			kw, rest = l[:k], strings.TrimSpace(l[k:])
		}
		fail := func(m string) error { return fmt.Errorf("%s:%d: %s", filepath.Base(f), ln, m) }
		px := func(s string) (ast.Expr, error) {
			e, err := parser.ParseExpr(strings.ReplaceAll(s, "$", "g_"))
			if err != nil {
				return nil, fail(err.Error() + " in " + s)
			}
			return e, nil
		}
		clause := func() (Clause, error) {
			k := strings.Index(rest, ":")
			nm, ex := "", rest
			if k > 0 && isIdent(strings.TrimSpace(rest[:k])) {
				nm, ex = strings.TrimSpace(rest[:k]), strings.TrimSpace(rest[k+1:])
			}
			e, err := px(ex)
			return Clause{name: nm, text: ex, expr: e}, err
		}
		switch kw {
		case "property":
			props = strings.Fields(rest)
			cur = nil
		case "define":
			k := strings.Index(rest, "=")
			for k > 0 && (rest[k-1] == '<' || rest[k-1] == '>' || rest[k+1] == '=') {
				return fail("define")
			}
			h, err := px(strings.TrimSpace(rest[:k]))
			if err != nil {
				return err
			}
			b, err := px(strings.TrimSpace(rest[k+1:]))
			if err != nil {
				return err
			}
			c, ok := h.(*ast.CallExpr)
			if !ok {
				S.macros[h.(*ast.Ident).Name] = &macro{nil, b}
				break
			}
			m := &macro{body: b}
			for _, a := range c.Args {
				m.params = append(m.params, a.(*ast.Ident).Name)
			}
			S.macros[c.Fun.(*ast.Ident).Name] = m
		case "func":
			fl := strings.Fields(rest)
			cur = &Contract{fn: fl[0], name: fl[0], props: props, LoopInv: map[int][]invX{}, opts: map[string]string{}, file: filepath.Base(f), line: ln}
			if len(fl) == 3 && fl[1] == "as" {
				cur.name = fl[2]
			}
			S.contracts = append(S.contracts, cur)
		case "lemma":
			cur = &Contract{name: rest, props: props, lemma: true, LoopInv: map[int][]invX{}, opts: map[string]string{}, file: filepath.Base(f), line: ln}
			S.contracts = append(S.contracts, cur)
		default:
			if cur == nil {
				return fail("outside a unit: " + l)
			}
			switch kw {
			case "params":
				cur.params = strings.Fields(rest)
			case "results":
				cur.results = strings.Fields(rest)
			case "modular":
				cur.Modular = true
			case "merge":
				cur.Merge = true
			case "pure":
				cur.Pure = true
				cur.Modular = true
				if rest != "" {
					e, err := px("f(" + rest + ")")
					if err != nil {
						return err
					}
					cur.reads = e.(*ast.CallExpr).Args
				}
			case "nopanic":
				cur.NoPanic = true
			case "noverify":
				cur.NoVerify = true
			case "modifies":
				cur.modifies = append(cur.modifies, strings.Fields(rest)...)
			case "using":
				cur.use = append(cur.use, strings.Fields(rest)...)
			case "loopin":
				// loopin FUNC N: invariant of a loop of a function executed inline
				fl := strings.SplitN(rest, " ", 2)
				k := strings.Index(fl[1], ":")
				n, err := strconv.Atoi(strings.TrimSpace(fl[1][:k]))
				if err != nil {
					return fail("loop number")
				}
				e, err := px(strings.TrimSpace(fl[1][k+1:]))
				if err != nil {
					return err
				}
				if cur.loopIn == nil {
					cur.loopIn = map[string]map[int][]invX{}
				}
				if cur.loopIn[fl[0]] == nil {
					cur.loopIn[fl[0]] = map[int][]invX{}
				}
				cur.loopIn[fl[0]][n] = append(cur.loopIn[fl[0]][n], invX{strings.TrimSpace(fl[1][k+1:]), e})
			case "inline":
				cur.inline = append(cur.inline, strings.Fields(rest)...)
			case "timeout":
				cur.timeout, _ = strconv.Atoi(rest)
			case "option":
				fl := strings.SplitN(rest, " ", 2)
				v := "1"
				if len(fl) > 1 {
					v = strings.TrimSpace(fl[1])
				}
				cur.opts[fl[0]] = v
			case "requires":
				c, err := clause()
				if err != nil {
					return err
				}
				cur.requires = append(cur.requires, c)
			case "ensures":
				c, err := clause()
				if err != nil {
					return err
				}
				if c.name == "" {
					c.name = fmt.Sprintf("post%d", len(cur.ensures)+1)
				}
				cur.ensures = append(cur.ensures, c)
			case "loop":
				k := strings.Index(rest, ":")
				n, err := strconv.Atoi(strings.TrimSpace(rest[:k]))
				if err != nil {
					return fail("loop number")
				}
				e, err := px(strings.TrimSpace(rest[k+1:]))
				if err != nil {
					return err
				}
				cur.LoopInv[n] = append(cur.LoopInv[n], invX{strings.TrimSpace(rest[k+1:]), e})
			case "split":
				// split expr in lo..hi
				k := strings.LastIndex(rest, " in ")
				e, err := px(rest[:k])
				if err != nil {
					return err
				}
				b := strings.Split(strings.TrimSpace(rest[k+4:]), "..")
				lo, _ := strconv.ParseInt(b[0], 10, 64)
				hi, _ := strconv.ParseInt(b[1], 10, 64)
				cur.splits = append(cur.splits, split{expr: e, text: rest[:k], lo: lo, hi: hi})
			case "var":
				for _, d := range strings.Split(rest, ",") {
					fl := strings.Fields(d)
					if len(fl) != 2 {
						return fail("var")
					}
					cur.steps = append(cur.steps, lemmaStep{kind: "var", vname: fl[0], vtype: fl[1]})
				}
			case "forall": // an arbitrary value the postconditions may mention
				cur.foralls = append(cur.foralls, strings.Fields(rest)...)
			case "assume", "assert", "havoc":
				c, err := clause()
				if err != nil {
					return err
				}
				cur.steps = append(cur.steps, lemmaStep{kind: kw, c: c})
			case "let":
				k := strings.Index(rest, "=")
				e, err := px(strings.TrimSpace(rest[k+1:]))
				if err != nil {
					return err
				}
				cur.steps = append(cur.steps, lemmaStep{kind: "let", vname: strings.TrimSpace(rest[:k]), c: Clause{expr: e, text: rest}})
			case "snapshot":
				cur.steps = append(cur.steps, lemmaStep{kind: "snapshot", vname: rest})
			case "call":
				st := lemmaStep{kind: "call"}
				r := rest
				if k := strings.Index(r, ":="); k >= 0 {
					for _, v := range strings.Split(r[:k], ",") {
						st.res = append(st.res, strings.TrimSpace(v))
					}
					r = strings.TrimSpace(r[k+2:])
				}
				// function name up to the argument list (the name may start with a parenthesis)
				p := 0
				if strings.HasPrefix(r, "(") {
					p = strings.Index(r, ")") + 1
				}
				q := strings.Index(r[p:], "(") + p
				st.fn = r[:q]
				e, err := px("f" + r[q:])
				if err != nil {
					return err
				}
				st.args = e.(*ast.CallExpr).Args
				cur.steps = append(cur.steps, st)
			default:
				return fail("unknown keyword " + kw)
			}
		}
	}
	return nil
}

func isIdent(s string) bool {
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == '-' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	return s != ""
}

// ---- evaluation ----

type sEnv struct {
	x      *exec
	st     *State
	old    *State
	vars   map[string]Val
	oldV   map[string]Val
	oldEnv *sEnv
	lookup func(name string, s *State) (Val, bool)
	snaps  map[string]*State
	prog   *Program
	depth  int
}

type specErr string

func (e specErr) Error() string { return string(e) }

func (e *sEnv) fail(f string, a ...interface{}) {
	panic(unsupported("spec: " + fmt.Sprintf(f, a...)))
}

func (e *sEnv) term(ex ast.Expr) *Term { return e.toTerm(e.eval(ex)) }

func (e *sEnv) toTerm(v Val) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case Num:
		return t.V
	case Rope:
		return ropeCode(t)
	case Ptr:
		if isNum(t.T) && len(t.Path) == 0 || t.Cell != nil {
			return e.toTerm(e.x.peek(e.st, t))
		}
		return e.x.reifyPtr(e.st, t)
	case Iface:
		return e.x.reifyIface(e.st, t)
	case *Bag:
		return t.A
	}
	e.fail("term expected, got %T", v)
	return nil
}

func (e *sEnv) boolean(ex ast.Expr) *Term {
	t := e.term(ex)
	if t.sort != SBool {
		e.fail("boolean expected")
	}
	return t
}

func (e *sEnv) with(st *State) *sEnv {
	n := *e
	n.st = st
	return &n
}

func (e *sEnv) eval(ex ast.Expr) Val {
	switch t := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(t.X)
	case *ast.BasicLit:
		switch t.Kind {
		case token.INT:
			n, _ := new(big.Int).SetString(strings.ReplaceAll(t.Value, "_", ""), 0)
			return IB(n)
		case token.STRING:
			s, _ := strconv.Unquote(t.Value)
			return strConst(s)
		}
	case *ast.Ident:
		return e.ident(t.Name)
	case *ast.UnaryExpr:
		switch t.Op {
		case token.NOT:
			return Not(e.boolean(t.X))
		case token.SUB:
			return Neg(e.term(t.X))
		}
	case *ast.StarExpr:
		p, ok := e.eval(t.X).(Ptr)
		if !ok {
			e.fail("deref")
		}
		return e.x.peek(e.st, p)
	case *ast.BinaryExpr:
		switch t.Op {
		case token.LAND:
			a := e.boolean(t.X)
			return And(a, e.under(a).boolean(t.Y))
		case token.LOR:
			return Or(e.boolean(t.X), e.boolean(t.Y))
		case token.EQL, token.NEQ:
			r := e.eq(t.X, t.Y)
			if t.Op == token.NEQ {
				return Not(r)
			}
			return r
		}
		a, b := e.term(t.X), e.term(t.Y)
		switch t.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		case token.QUO:
			return goDiv(a, b)
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, shadow := e.vars[id.Name]; !shadow && (e.lookup == nil || !lookupOk(e, id.Name)) {
				if v, ok := e.x.P.constant(t.Sel.Name); ok && e.x.P.pkgNamed(id.Name) {
					return v
				}
			}
		}
		return e.field(e.eval(t.X), t.Sel.Name)
	case *ast.IndexExpr:
		v := e.eval(t.X)
		if m, ok := v.(MapRef); ok {
			mv := e.x.mapVal(e.st, m)
			if mv == nil {
				e.fail("index of a nil map")
			}
			return e.x.mapGet(e.st, mv, e.x.keyTerm(e.st, e.eval(t.Index), m.T.Key()))
		}
		i := e.term(t.Index)
		switch s := v.(type) {
		case *Slice:
			if s.Arr != nil {
				if i.isConst() {
					return e.x.peek(e.st, e.x.elemPtr(e.st, s, i))
				}
				s = e.x.reifySlice(e.st, s)
			}
			return e.x.sliceLoad(e.st, s, Add(s.Off, i), nil)
		case *Bag:
			return Select(s.A, i)
		case *Term:
			if s.sort.isArr() {
				return Select(s, i)
			}
		case *Struct:
			if i.isConst() {
				return s.F[i.ival.Int64()]
			}
		}
		e.fail("index of %T", v)
	case *ast.CallExpr:
		return e.call(t)
	}
	e.fail("expression %T", ex)
	return nil
}

func isNilIdent(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "nil"
}

func (e *sEnv) eq(a, b ast.Expr) *Term {
	if isNilIdent(a) {
		a, b = b, a
	}
	va := e.eval(a)
	if isNilIdent(b) {
		switch v := va.(type) {
		case Num:
			return v.Nil
		case Iface:
			if v.Dyn != nil {
				return tFalse
			}
			return Eq(v.Ref, I(0))
		case Ptr:
			if v.Cell != nil {
				return tFalse
			}
			return Eq(v.Ref, I(0))
		case *Slice:
			if v.Arr != nil {
				return tFalse
			}
			return Eq(v.Id, I(0))
		case MapRef:
			if v.Ref != nil {
				return Eq(v.Ref, I(0))
			}
			return B(v.Cell == nil)
		case *Term:
			return Eq(v, I(0))
		case *Bag:
			return Eq(v.A, ConstArr(arrSort(SInt), I(0)))
		}
		e.fail("nil comparison of %T", va)
	}
	vb := e.eval(b)
	switch x := va.(type) {
	case *Struct:
		y, ok := vb.(*Struct)
		if !ok {
			e.fail("struct equality")
		}
		return e.structEq(x, y)
	case Num:
		if y, ok := vb.(Num); ok {
			_ = y
			return Eq(x.V, y.V)
		}
	case Ptr:
		if y, ok := vb.(Ptr); ok && !isNum(x.T) {
			return e.x.equal(e.st, x, y, nil)
		}
	}
	ta, tb := e.toTerm(va), e.toTerm(vb)
	return Eq(ta, tb)
}

// structEq compares leaf by leaf (numbers by value).
func (e *sEnv) structEq(a, b *Struct) *Term {
	if e.recordLike(a) || e.recordLike(b) {
		return e.valEq(a, b)
	}
	r := tTrue
	la, lb := e.x.leaves(e.st, a, a.T), e.x.leaves(e.st, b, b.T)
	if len(la) != len(lb) {
		e.fail("struct shapes")
	}
	for i := range la {
		r = And(r, Eq(la[i], lb[i]))
	}
	return r
}

func (e *sEnv) ident(n string) Val {
	switch n {
	case "true":
		return tTrue
	case "false":
		return tFalse
	case "nil":
		return I(0)
	case "P":
		return tP
	}
	if v, ok := e.vars[n]; ok {
		return v
	}
	if strings.HasPrefix(n, "g_") {
		return e.st.hget("$"+n[2:], SInt)
	}
	if e.lookup != nil {
		if v, ok := e.lookup(n, e.st); ok {
			return v
		}
	}
	if e.x.unit != nil {
		if v, ok := e.x.unit.fa[n]; ok {
			return v
		}
	}
	if m := e.x.P.specs.macros[n]; m != nil && m.params == nil {
		return e.expand(m, nil)
	}
	if v, ok := e.x.P.constant(n); ok {
		return v
	}
	panic(unsupported("spec: unknown name " + n))
}

func (e *sEnv) expand(m *macro, args []ast.Expr) Val {
	if e.depth > 40 {
		e.fail("macro depth")
	}
	n := *e
	n.depth++
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for i, p := range m.params {
		n.vars[p] = e.eval(args[i])
	}
	return n.eval(m.body)
}

func (e *sEnv) field(v Val, name string) Val {
	switch s := v.(type) {
	case *Struct:
		u, ok := s.T.Underlying().(*types.Struct)
		if !ok {
			e.fail("field %s", name)
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return s.F[i]
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() {
				return e.field(s.F[i], name)
			}
		}
	case Ptr:
		t := s.T
		if s.Cell != nil || s.Ref != nil || s.Sl != nil {
			_, sub := subPath(t, s.Path)
			u, ok := sub.Underlying().(*types.Struct)
			if !ok {
				if _, isP := sub.Underlying().(*types.Pointer); isP {
					return e.field(e.x.peek(e.st, s), name)
				}
				e.fail("field %s of pointer to %s", name, sub)
			}
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					np := s
					np.Path = append(append([]int{}, s.Path...), i)
					return e.x.peek(e.st, np)
				}
			}
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Embedded() {
					np := s
					np.Path = append(append([]int{}, s.Path...), i)
					return e.field(e.x.peek(e.st, np), name)
				}
			}
		}
	case Iface:
		if s.Dyn != nil {
			return e.field(s.V, name)
		}
		// an amm.Order: through the shared base
		if b := e.x.P.namedType("defund/x/dex/amm", "BaseOrder"); b != nil {
			return e.field(Ptr{Ref: s.Ref, T: b}, name)
		}
	case *Term:
		e.fail("field %s of scalar", name)
	}
	e.fail("field %s of %T", name, v)
	return nil
}

func (e *sEnv) call(c *ast.CallExpr) Val {
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		e.fail("call")
	}
	A := c.Args
	need := func(n int) {
		if len(A) != n {
			e.fail("%s wants %d arguments", id.Name, n)
		}
	}
	if m := e.x.P.specs.macros[id.Name]; m != nil {
		need(len(m.params))
		return e.expand(m, A)
	}
	switch id.Name {
	case "old":
		need(1)
		if e.oldEnv != nil {
			n := *e.oldEnv
			n.vars = e.vars
			return n.eval(A[0])
		}
		n := e.with(e.old)
		if e.oldV != nil {
			n.vars = map[string]Val{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			for k, v := range e.oldV {
				n.vars[k] = v
			}
		}
		return n.eval(A[0])
	case "at": // at(snapshot, expr)
		need(2)
		s := e.snaps[A[0].(*ast.Ident).Name]
		if s == nil {
			e.fail("snapshot")
		}
		return e.with(s).eval(A[1])
	case "imp":
		need(2)
		p := e.boolean(A[0])
		if p == tFalse {
			return tTrue
		}
		return Imp(p, e.under(p).boolean(A[1]))
	case "iff":
		need(2)
		return Eq(e.boolean(A[0]), e.boolean(A[1]))
	case "ite":
		need(3)
		return Ite(e.boolean(A[0]), e.term(A[1]), e.term(A[2]))
	case "abs":
		a := e.term(A[0])
		return Ite(Ge(a, I(0)), a, Neg(a))
	case "min", "max":
		need(2)
		a, b := e.term(A[0]), e.term(A[1])
		if id.Name == "max" {
			return Ite(Le(a, b), b, a)
		}
		return Ite(Le(a, b), a, b)
	case "len":
		switch s := e.eval(A[0]).(type) {
		case *Slice:
			return e.x.lenOf(s)
		case *Bag:
			return e.x.bagLen(e.st, s)
		case *Term:
			return strLen(e.st, s)
		case Rope:
			return s.length()
		case MapRef:
			mv := e.x.mapVal(e.st, s)
			if mv == nil {
				return I(0)
			}
			return mv.Size
		}
	case "prior": // prior(p): a reference that exists already, so no later allocation returns it
		switch v := e.eval(A[0]).(type) {
		case Ptr:
			if v.Ref != nil {
				return Ge(v.Ref, I(-allocN))
			}
		case *Slice:
			if v.Id != nil {
				return Ge(v.Id, I(-allocN))
			}
		case Iface:
			if v.Ref != nil {
				return Ge(v.Ref, I(-allocN))
			}
		}
		return tTrue
	case "isnil":
		return e.eq(A[0], &ast.Ident{Name: "nil"})
	case "all": // all(i, lo, hi, body [, trigger...])
		n := *e
		n.vars = map[string]Val{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		freshN++
		b := Bound(fmt.Sprintf("q%d", freshN))
		ev := func(iv *Term) *Term {
			n.vars[A[0].(*ast.Ident).Name] = iv
			n.st = e.st.clone()
			return n.boolean(A[3])
		}
		// quantify over the index into the backing array, so that the trigger is
		// plain; one equivalent form for every array that is indexed
		body := ev(b)
		offs := []*Term{I(0)}
		if cs := boundOffsets(body, b); len(cs) > 0 {
			offs = cs
		}
		res := tTrue
		for _, c := range offs {
			iv := Sub(b, c)
			body = ev(iv)
			rng := And(Le(e.term(A[1]), iv), Lt(iv, e.term(A[2])))
			var pats [][]*Term
			for _, p := range A[4:] {
				pats = append(pats, []*Term{n.term(p)})
			}
			if len(pats) == 0 {
				for _, p := range boundSelects(body, b) {
					pats = append(pats, []*Term{p})
				}
			}
			res = And(res, Forall([]*Term{b}, Imp(rng, body), pats...))
		}
		return res
	case "allint": // allint(i, body)
		n := *e
		n.vars = map[string]Val{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		freshN++
		b := Bound(fmt.Sprintf("q%d", freshN))
		n.vars[A[0].(*ast.Ident).Name] = b
		n.st = e.st.clone()
		return Forall([]*Term{b}, n.boolean(A[1]))
	case "callm": // callm("Method", k, value, args...): result k of a method of an abstract interface value
		nm, _ := strconv.Unquote(A[0].(*ast.BasicLit).Value)
		k := e.term(A[1])
		if !k.isConst() {
			e.fail("callm: result number")
		}
		j := strings.LastIndex(e.x.abstract, ".")
		if j < 0 {
			e.fail("callm without option abstract")
		}
		nt := e.x.P.namedType("defund/x/dex/"+e.x.abstract[:j], e.x.abstract[j+1:])
		it, ok := nt.Underlying().(*types.Interface)
		iv, ok2 := e.eval(A[2]).(Iface)
		if !ok || !ok2 {
			e.fail("callm on a value that is no interface")
		}
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Name() == nm {
				var args []Val
				for p, a := range A[3:] {
					v := e.eval(a)
					if t, ok := v.(*Term); ok && isNum(m.Type().(*types.Signature).Params().At(p).Type()) {
						v = mkN(t)
					}
					args = append(args, v)
				}
				return e.x.abstractCall(e.st, m, iv.Ref, args)[k.ival.Int64()]
			}
		}
		e.fail("no method %s", nm)
		return nil
	case "callfn": // callfn("pkg.Fn", args...): a pure function of the repository
		nm, _ := strconv.Unquote(A[0].(*ast.BasicLit).Value)
		fn := e.x.P.fn(nm)
		if fn == nil {
			e.fail("no function %s", nm)
		}
		return e.pureCall(fn, A[1:])
	case "gvar": // gvar("types.X"): a package variable that nothing assigns after initialisation
		nm, _ := strconv.Unquote(A[0].(*ast.BasicLit).Value)
		k := strings.Index(nm, ".")
		for _, path := range rootPkgs {
			if !strings.HasSuffix(path, "/"+nm[:k]) {
				continue
			}
			if g, ok := e.x.P.pkgs[path].Members[nm[k+1:]].(*ssa.Global); ok {
				c := e.x.P.globalCell(g)
				if v, ok := e.st.cells[c]; ok {
					return v
				}
				return e.x.globalVal(e.st, c)
			}
		}
		e.fail("no package variable %s", nm)
		return nil
	case "pow10":
		return e.x.pow10T(e.st, e.term(A[0]))
	case "digits":
		return e.x.digits(e.st, e.term(A[0]))
	case "at0": // value at the entry of the unit
		n := *e.x.unit.entry
		n.vars = map[string]Val{}
		for k, v := range e.x.unit.entry.vars {
			n.vars[k] = v
		}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		return n.eval(A[0])
	case "decmul":
		return decMul(e.term(A[0]), e.term(A[1]))
	case "istick": // istick(t, prec)
		p, ok := e.x.constOf2(e.st, e.term(A[1]))
		if !ok {
			return UF("istick", SBool, e.term(A[0]), e.term(A[1]))
		}
		return e.x.isTickAt(e.st, e.term(A[0]), p)
	case "isp10":
		return isPow10T(e.term(A[0]))
	case "amt": // amt(coins, denom)
		need(2)
		b := e.x.toBag(e.st, e.eval(A[0]))
		return e.x.amountOf(e.st, b, e.term(A[1]))
	case "mulc": // exact product
		return Mul(e.term(A[0]), e.term(A[1]))
	case "visitedset", "keys", "cnt", "iskey", "isprefix", "has", "rec", "bal", "supply", "ghost", "param", "addr", "validaddr", "kvref", "uf", "ufb", "blocktime", "blockheight", "sprintf", "coin", "ctr", "module", "spendable", "validdenom", "bech32", "derived", "coins", "part", "visited", "snaphas", "moves", "unchanged", "onlychanges", "others", "every", "sameexcept":
		return e.cosmosCall(id.Name, A)
	case "ordersok": // every order's amounts are in range
		freshN++
		r := Bound(fmt.Sprintf("q%d", freshN))
		f := func(n string) *Term { return Select(e.st.hget("amm.BaseOrder."+n, arrSort(SInt)), r) }
		d := f("Direction")
		op, pd, of, rc := f("OpenAmount#v"), f("PaidOfferCoinAmount#v"), f("OfferCoinAmount#v"), f("ReceivedDemandCoinAmount#v")
		return Forall([]*Term{r}, And(Ge(f("Amount#v"), I(0)), Ge(op, I(0)), Ge(pd, I(0)), Le(pd, of), Ge(rc, I(0)), Or(Eq(d, I(1)), And(Eq(d, I(2)), Le(Add(op, pd), of)))),
			[]*Term{op}, []*Term{pd}, []*Term{d})
	case "everykey": // everykey(k, m, body): body for every key of the map
		m := e.eval(A[1]).(MapRef)
		mv := e.x.mapVal(e.st, m)
		if mv == nil {
			return tTrue
		}
		n := *e
		n.vars = map[string]Val{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		freshN++
		b := Bound(fmt.Sprintf("q%d", freshN))
		n.vars[A[0].(*ast.Ident).Name] = b
		n.st = e.st.clone()
		d := Select(mv.Dom, b)
		return Forall([]*Term{b}, Imp(d, n.boolean(A[2])), []*Term{d})
	case "validcoins":
		b := e.x.toBag(e.st, e.eval(A[0]))
		if b.Known {
			return tTrue
		}
		return UF("coins.valid", SBool, b.A)
	case "entry": // entry(coins, i): the i-th coin of a coin list
		b := e.x.toBag(e.st, e.eval(A[0]))
		d := UF("coins.denom", SInt, b.A, e.term(A[1]))
		return coinVal(e.x.coinT(), d, Select(b.A, d))
	case "inmap": // inmap(m, k): k is a key of the map
		m := e.eval(A[0]).(MapRef)
		mv := e.x.mapVal(e.st, m)
		if mv == nil {
			return tFalse
		}
		return Select(mv.Dom, e.x.keyTerm(e.st, e.eval(A[1]), mv.T.Key()))
	case "tup": // tup(a, b): a struct used as a map key
		s := &Struct{}
		for _, a := range A {
			s.F = append(s.F, e.eval(a))
		}
		return s
	case "inst": // evaluated for the instances of definitions it brings in
		e.eval(A[0])
		return tTrue
	case "psum": // psum(i, s, n, body): sum of body over the first n elements of s
		sl := e.eval(A[1]).(*Slice)
		if sl.Arr != nil {
			sl = e.x.reifySlice(e.st, sl)
		}
		n := e.term(A[2])
		at := func(i *Term) *Term {
			m := *e
			m.vars = map[string]Val{}
			for k, v := range e.vars {
				m.vars[k] = v
			}
			m.vars[A[0].(*ast.Ident).Name] = e.x.sliceLoad(e.st, sl, Add(sl.Off, i), nil)
			return m.term(A[3])
		}
		// the sum is a function of the summand (as a function of the index) and n
		probe := at(Sym("psum_i", SInt))
		id := fmt.Sprintf("psum!%d", probe.id)
		F := func(i *Term) *Term { return UF(id, SInt, i) }
		e.st.assume(Eq(F(I(0)), I(0)))
		if !(n.isConst() && n.ival.Sign() <= 0) {
			e.st.assume(Imp(Gt(n, I(0)), Eq(F(n), Add(F(Sub(n, I(1))), at(Sub(n, I(1)))))))
		}
		return F(n)
	case "dynis", "as": // dynamic type of an interface value: *pkg.T
		nm, _ := strconv.Unquote(A[1].(*ast.BasicLit).Value)
		k := strings.Index(nm, ".")
		t := e.x.P.namedType("defund/x/dex/"+nm[:k], nm[k+1:])
		if t == nil {
			e.fail("no type %s", nm)
		}
		v, ok := e.eval(A[0]).(Iface)
		if !ok || v.Dyn != nil {
			e.fail("dynamic type of a concrete value")
		}
		if id.Name == "as" {
			return Ptr{Ref: v.Ref, T: t}
		}
		return And(Ne(v.Ref, I(0)), Eq(UF("dyn", SInt, v.Ref), typeTag(types.NewPointer(t))))
	case "heapof": // a heap array
		nm, _ := strconv.Unquote(A[0].(*ast.BasicLit).Value)
		if _, ok := heapSorts[nm]; !ok {
			srt := arrSort(SInt)
			if strings.HasPrefix(nm, "[]") {
				srt = arrSort(srt)
			}
			return e.st.hget(nm, srt)
		}
		return e.st.hget(nm, heapSort(nm))
	case "dom":
		m := e.eval(A[0]).(MapRef)
		return Select(e.x.mapVal(e.st, m).Dom, e.term(A[1]))
	case "mapsum":
		m := e.eval(A[0]).(MapRef)
		return e.x.mapVal(e.st, m).Sum
	}
	// a pure function of the repository, evaluated by symbolic execution
	if fn := e.x.P.fn(strings.ReplaceAll(id.Name, "__", ".")); fn != nil {
		return e.pureCall(fn, A)
	}
	e.fail("unknown function %s", id.Name)
	return nil
}

func (e *sEnv) pureCall(fn *ssa.Function, A []ast.Expr) Val {
	var args []Val
	for i, a := range A {
		v := e.eval(a)
		if t, ok := v.(*Term); ok && i < len(fn.Params) && isNum(fn.Params[i].Type()) {
			v = mkN(t)
		}
		args = append(args, v)
	}
	outs := e.x.mergePure(e.st.clone(), func(s *State) []outcome { return e.x.callStatic(s, fn, args, nil, "spec") }, fn.Signature.Results())
	var rets []outcome
	for _, o := range outs {
		if o.kind == oReturn {
			rets = append(rets, o)
		}
	}
	if len(rets) != 1 {
		e.fail("call of %s does not reduce to one value", fn)
	}
	k := len(e.st.pc)
	for _, p := range rets[0].st.pc[k:] {
		e.st.assume(p)
	}
	return rets[0].vals[0]
}

// evalInv evaluates a loop invariant at a loop head.
func (x *exec) evalInv(inv invX, s *State, f2 *Frame, b *ssa.BasicBlock, entry *State, fr *Frame, ephis []Val) *Term {
	look := func(f *Frame, phis []Val, useEntry bool) func(string, *State) (Val, bool) {
		return func(n string, s *State) (Val, bool) {
			i := 0
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if p.Comment == n {
					if useEntry {
						return phis[i], true
					}
					return f.env[p], true
				}
				i++
			}
			if n == "rangeindex" {
				// a loop that counts by hand from zero: the index of the last
				// element dealt with is one less than the counter
				i = 0
				for _, in := range b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if lo, ok := counter(p); ok && lo == 0 {
						v := f.env[p]
						if useEntry {
							v = phis[i]
						}
						if t, ok := v.(*Term); ok {
							return Sub(t, I(1)), true
						}
					}
					i++
				}
			}
			return x.nameInFrame(f, n, s)
		}
	}
	e := &sEnv{x: x, st: s, old: entry, vars: map[string]Val{}, lookup: look(f2, nil, false)}
	oe := &sEnv{x: x, st: entry, old: entry, vars: map[string]Val{}, lookup: look(fr, ephis, true)}
	e.oldEnv = oe // old() in an invariant is the state before the loop
	return e.boolean(inv.expr)
}

// nameInFrame finds a source variable: parameter, captured variable, local.
func (x *exec) nameInFrame(f *Frame, n string, s *State) (Val, bool) {
	for _, p := range f.fn.Params {
		if p.Name() == n {
			if v, ok := f.env[p]; ok {
				// a parameter whose address is taken lives in an alloc of the same name
				for k, av := range f.env {
					if a, ok := k.(*ssa.Alloc); ok && a.Comment == n {
						return x.peek(s, av.(Ptr)), true
					}
				}
				return v, true
			}
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == n {
			if v, ok := f.env[p].(Ptr); ok {
				return x.peek(s, v), true
			}
		}
	}
	var best *ssa.Alloc
	for k := range f.env {
		if a, ok := k.(*ssa.Alloc); ok && a.Comment == n {
			if best == nil || a.Pos() > best.Pos() {
				best = a
			}
		}
	}
	if best != nil {
		if p, ok := f.env[best].(Ptr); ok {
			return x.peek(s, p), true
		}
	}
	var bp *ssa.Phi
	for k := range f.env {
		if p, ok := k.(*ssa.Phi); ok && p.Comment == n {
			if bp == nil || p.Block().Index > bp.Block().Index {
				bp = p
			}
		}
	}
	if bp != nil {
		return f.env[bp], true
	}
	// a variable that lives in a register: its definition, from the debug information
	var bd *ssa.DebugRef
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.IsAddr || d.Object() == nil || d.Object().Name() != n {
				continue
			}
			if _, ok := f.env[d.X]; ok && (bd == nil || d.Pos() > bd.Pos()) {
				bd = d
			}
		}
	}
	if bd != nil {
		return f.env[bd.X], true
	}
	// variables of the caller, captured by a function passed in
	for _, p := range f.fn.Params {
		if fv, ok := f.env[p].(Func); ok {
			if fn, ok := fv.Fn.(*ssa.Function); ok {
				for i, b := range fn.FreeVars {
					if b.Name() == n && i < len(fv.Binds) {
						if pv, ok := fv.Binds[i].(Ptr); ok {
							return x.peek(s, pv), true
						}
						return fv.Binds[i], true
					}
				}
			}
		}
	}
	if x.unit != nil && x.unit.entry != nil {
		if v, ok := x.unit.entry.vars[n]; ok {
			return v, true
		}
	}
	return nil, false
}

// ---- contract application ----

func (c *Contract) env(x *exec, st *State, fn *ssa.Function, args []Val) *sEnv {
	e := &sEnv{x: x, st: st, old: st, vars: map[string]Val{}}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(c.params) {
			n = c.params[i]
		}
		if i < len(args) {
			e.vars[n] = args[i]
		}
	}
	return e
}

func (c *Contract) bindResults(e *sEnv, fn *ssa.Function, vals []Val) {
	rs := fn.Signature.Results()
	for i, v := range vals {
		n := rs.At(i).Name()
		if i < len(c.results) {
			n = c.results[i]
		}
		if n != "" {
			e.vars[n] = v
		}
		e.vars[fmt.Sprintf("r%d", i)] = v
	}
}

func (c *Contract) note() string {
	var s []string
	for _, q := range c.ensures {
		s = append(s, q.text)
	}
	return strings.Join(s, "; ")
}

func (x *exec) applyContract(st *State, fn *ssa.Function, con *Contract, args []Val, pos string) []outcome {
	name := con.name
	if x.used != nil {
		x.used[name] = true
	}
	e := con.env(x, st, fn, args)
	guard := tTrue // a call inside a specification promises nothing outside its precondition
	for i, r := range con.requires {
		t := e.boolean(r.expr)
		if pos == "spec" {
			guard = And(guard, t)
			continue
		}
		if !x.recording && x.unit != nil {
			nm := r.name
			if nm == "" {
				nm = fmt.Sprintf("pre%d", i+1)
			}
			x.unit.oblige("precondition", fmt.Sprintf("%s.%s at %s", name, nm, pos), st, t)
		}
		st.assume(t)
	}
	if con.NoVerify {
		x.useExt("assumed contract: " + con.name + " (" + con.fn + "): " + con.note())
	}
	for _, m := range con.modifies {
		if strings.HasPrefix(m, "*kv.") || strings.HasPrefix(m, "*$") {
			continue
		}
		// what the callee may change must be in the heap, not in local cells
		for i, a := range args {
			if _, ok := a.(Func); ok {
				panic(unsupported("function passed to a callee that modifies the heap"))
			}
			x.leaves(st, a, fn.Params[i].Type())
		}
		break
	}
	oldSt := st.clone()
	for _, m := range con.modifies {
		x.havocRegion(st, m, e)
	}
	rt := fn.Signature.Results()
	var vals []Val
	if con.Pure {
		var ls []*Term
		if con.reads != nil {
			for _, r := range con.reads {
				if sl, ok := e.eval(r).(*Slice); ok {
					sl = x.reifySlice(st, sl)
					ls = append(ls, sl.Id, sl.Off, sl.Len)
					continue
				}
				ls = append(ls, e.term(r))
			}
		} else {
			for i, a := range args {
				ls = append(ls, x.leaves(st, a, fn.Params[i].Type())...)
			}
		}
		for i := 0; i < rt.Len(); i++ {
			var rl []*Term
			for _, lf := range flatten(rt.At(i).Type()) {
				if lf.path == "#nil" {
					rl = append(rl, tFalse)
					continue
				}
				rl = append(rl, UF(fmt.Sprintf("%s#%d%s", name, i, lf.path), lf.sort, ls...))
			}
			v := build(rt.At(i).Type(), rl)
			x.assumeRange(st, rt.At(i).Type(), v)
			vals = append(vals, v)
		}
	} else {
		for i := 0; i < rt.Len(); i++ {
			v := x.freshVal(st, rt.At(i).Type(), "ret_"+fn.Name())
			vals = append(vals, v)
		}
	}
	e2 := con.env(x, st, fn, args)
	e2.old = oldSt
	con.bindResults(e2, fn, vals)
	for _, q := range con.ensures {
		if len(con.foralls) > 0 && mentions(q.expr, con.foralls) {
			continue
		}
		if hasForall(guard) || strings.HasPrefix(q.name, "cover") { // covers are not promises
			continue
		}
		st.assume(Imp(guard, e2.boolean(q.expr)))
	}
	if !x.feasible(st, tTrue) {
		return []outcome{}
	}
	return ret(st, vals...)
}

// havocRegion: "heap:<name>" one heap array, "order" the mutable order fields,
// "*<prefix>" all arrays with the prefix.
func (x *exec) havocRegion(st *State, m string, e *sEnv) {
	switch {
	case m == "heap":
		for _, n := range sortedKeys(st.heap) {
			if inRegion(n, "!store") {
				st.hset(n, Fresh("hv_"+n, heapSorts[n]))
			}
		}
		st.havoc("!store")
	case m == "orders":
		for _, f := range []string{"OpenAmount", "PaidOfferCoinAmount", "ReceivedDemandCoinAmount"} {
			n := "amm.BaseOrder." + f + "#v"
			st.hset(n, Fresh("hv_"+f, arrSort(SInt)))
			nn := "amm.BaseOrder." + f + "#nil"
			st.hget(nn, arrSort(SBool))
		}
		for _, g := range ghostNames {
			st.hset(g, Fresh("hv_"+g, SInt))
		}
		n := "types.UserOrder.IsMatched"
		_ = n
	case strings.HasPrefix(m, "*"):
		if strings.HasPrefix(m, "*kv.") {
			for _, f := range families {
				for _, l := range x.famNames(f) {
					if strings.HasPrefix(l.path, m[1:]) {
						st.hget(l.path, l.sort)
					}
				}
			}
		}
		if m == "*"+hBal {
			st.hget(hBal, balSort)
		}
		if m == "*"+hSup {
			st.hget(hSup, arrSort(SInt))
		}
		for _, n := range sortedKeys(st.heap) {
			if strings.HasPrefix(n, m[1:]) {
				st.hset(n, Fresh("hv_"+n, heapSorts[n]))
			}
		}
		st.havoc(m[1:])
	default:
		st.hset(m, Fresh("hv_"+m, heapSort(m)))
	}
}

var ghostNames = []string{"$paidBuy", "$paidSell", "$recvBuy", "$recvSell", "$openBuy", "$openSell"}

func (P *Program) namedType(pkg, n string) types.Type {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	return o.Type()
}

// typ finds a type of an imported package.
func (P *Program) typ(path, n string) types.Type {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o := p.Pkg.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
	}
	var found types.Type
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] || found != nil {
			return
		}
		seen[p.Path()] = true
		if p.Path() == path {
			if o := p.Scope().Lookup(n); o != nil {
				found = o.Type()
			}
			return
		}
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, p := range P.pkgs {
		visit(p.Pkg)
	}
	if found == nil {
		panic(unsupported("type " + path + "." + n))
	}
	return found
}

// constant resolves an exported constant or enum value of the repository.
func (P *Program) constant(n string) (Val, bool) {
	for _, path := range rootPkgs {
		p := P.pkgs[path]
		if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
			if i, ok2 := new(big.Int).SetString(c.Val().ExactString(), 10); ok2 {
				return IB(i), true
			}
			if s, err := strconv.Unquote(c.Val().ExactString()); err == nil {
				return strConst(s), true
			}
		}
	}
	return nil, false
}

func (x *exec) constOf2(st *State, k *Term) (int64, bool) {
	if k.isConst() {
		return k.ival.Int64(), true
	}
	return x.constOf(st, k, 0, 20)
}

func mentions(e ast.Expr, names []string) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, m := range names {
				if id.Name == m {
					r = true
				}
			}
		}
		return true
	})
	return r
}

// under: the environment with a condition assumed (only where it can simplify
// the rest: decade cases).
func (e *sEnv) under(c *Term) *sEnv {
	if _, ok := e.x.chrHint(); !ok || len(freeBounds(c)) > 0 {
		return e
	}
	st := e.st.clone()
	st.assume(c)
	return e.with(st)
}

func hasTerm(t, b *Term, seen map[*Term]bool) bool {
	if t == b {
		return true
	}
	if v, ok := seen[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasTerm(a, b, seen) {
			r = true
			break
		}
	}
	seen[t] = r
	return r
}

func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walkTerm(a, seen, f)
	}
}

// boundOffsets returns the c such that arrays are selected at c+b in t.
func boundOffsets(t, b *Term) (cs []*Term) {
	hs := map[*Term]bool{}
	walkTerm(t, map[*Term]bool{}, func(s *Term) {
		if s.op != "select" || s.args[1].sort != SInt || !hasTerm(s.args[1], b, hs) || hasTerm(s.args[0], b, hs) {
			return
		}
		l := linOf(s.args[1])
		if k := l.co[b]; k == nil || k.Cmp(big.NewInt(1)) != 0 {
			return
		}
		r := Sub(s.args[1], b)
		l = linOf(r)
		r = Sub(r, IB(l.c)) // neighbours s[i+1] share the form of s[i]
		if hasTerm(r, b, hs) {
			return
		}
		for _, c := range cs {
			if c == r {
				return
			}
		}
		cs = append(cs, r)
	})
	return
}

func boundSelects(t, b *Term) (out []*Term) {
	hs := map[*Term]bool{}
	walkTerm(t, map[*Term]bool{}, func(s *Term) {
		if s.op == "select" && s.args[1] == b && !hasTerm(s.args[0], b, hs) && s.sort == SInt {
			out = append(out, s)
		}
	})
	return
}

// keySelects: triggers for a quantifier over store keys.
func keySelects(t, b *Term) (out []*Term) {
	hs, seen := map[*Term]bool{}, map[*Term]bool{}
	walkTerm(t, map[*Term]bool{}, func(s *Term) {
		if s.op == "select" && s.args[1] == b && !hasTerm(s.args[0], b, hs) {
			a := s.args[0]
			for a.op == "store" {
				a = a.args[0]
			}
			if a.op == "uf" || a.op == "sym" {
				s = mk("select", "", nil, s.sort, a, b)
			}
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	})
	return
}

func hasForall(t *Term) bool {
	r := false
	walkTerm(t, map[*Term]bool{}, func(s *Term) {
		if s.op == "forall" {
			r = true
		}
	})
	return r
}

// recordLike: a struct with optional numbers, which compare by value and not by pointer.
func (e *sEnv) recordLike(s *Struct) bool {
	for _, f := range s.F {
		switch v := f.(type) {
		case Ptr:
			if isNum(v.T) {
				return true
			}
		case Num:
			if v.Nil != tFalse {
				return true
			}
		case *Struct:
			if e.recordLike(v) {
				return true
			}
		}
	}
	return false
}

func lookupOk(e *sEnv, n string) bool {
	_, ok := e.lookup(n, e.st)
	return ok
}

func (P *Program) pkgNamed(n string) bool {
	for _, p := range P.pkgs {
		if p.Pkg.Name() == n {
			return true
		}
	}
	return false
}
