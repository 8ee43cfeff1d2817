package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
)

func arrSort(elem Sort) Sort { return Sort("(Array Int " + string(elem) + ")") }

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array") }

func (s Sort) elem() Sort {
	t := string(s)
	return Sort(strings.TrimSuffix(strings.TrimPrefix(t, "(Array Int "), ")"))
}

type Term struct {
	op   string // "const" (int literal), "true","false","sym","bound", or an SMT operator, "uf:NAME"
	name string
	ival *big.Int
	args []*Term
	sort Sort
	id   int
	key  string
	qv   []*Term // quantified variables
}

var (
	termMu  sync.Mutex
	terms   = map[string]*Term{}
	termCnt int
	freshN  int
)

func mk(op, name string, iv *big.Int, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	if iv != nil {
		b.WriteString(iv.String())
	}
	b.WriteByte('|')
	b.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := terms[k]; ok {
		return t
	}
	termCnt++
	t := &Term{op: op, name: name, ival: iv, args: args, sort: sort, id: termCnt, key: k}
	terms[k] = t
	return t
}

var (
	tTrue  = mk("true", "", nil, SBool)
	tFalse = mk("false", "", nil, SBool)
)

func I(n int64) *Term            { return mk("const", "", big.NewInt(n), SInt) }
func IB(n *big.Int) *Term        { return mk("const", "", new(big.Int).Set(n), SInt) }
func Sym(n string, s Sort) *Term { return mk("sym", n, nil, s) }
func Bound(n string) *Term       { return mk("bound", n, nil, SInt) }

func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func Fresh(hint string, s Sort) *Term {
	termMu.Lock()
	freshN++
	n := freshN
	termMu.Unlock()
	return Sym(fmt.Sprintf("%s!%d", clean(hint), n), s)
}

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == "const" }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "", nil, SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == "false" {
			return false
		}
		if t.op == "true" || seen[t.id] {
			return true
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", nil, SBool, out...)
}

func Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = Not(a)
	}
	r := Not(And(n...))
	if r.op == "not" && r.args[0].op == "and" {
		var xs []*Term
		for _, a := range r.args[0].args {
			xs = append(xs, Not(a))
		}
		return mk("or", "", nil, SBool, xs...)
	}
	return r
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c.op == "true" {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return And(Imp(c, a), Imp(Not(c), b))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", "", nil, a.sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return B(a.ival.Cmp(b.ival) == 0)
	}
	if a.sort == SBool {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return Not(b)
		}
		if b.op == "false" {
			return Not(a)
		}
	}
	if a.sort == SInt {
		// x + c = y + d style normalisation for constants
		d := Sub(a, b)
		if d.isConst() {
			return B(d.ival.Sign() == 0)
		}
		if a.op == "ite" && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", nil, SBool, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// linear normal form: sum of coeff*atom + const
type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case "const":
		l.c.Add(l.c, new(big.Int).Mul(t.ival, k))
	case "+":
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case "*":
		if len(t.args) == 2 && t.args[0].isConst() {
			addLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].ival))
			return
		}
		fallthrough
	default:
		c, ok := l.co[t]
		if !ok {
			c = new(big.Int)
			l.co[t] = c
		}
		c.Add(c, k)
		if c.Sign() == 0 {
			delete(l.co, t)
		}
	}
}

func (l lin) term() *Term {
	var ks []*Term
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, k := range ks {
		c := l.co[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, k)
		} else {
			parts = append(parts, mk("*", "", nil, SInt, IB(c), k))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IB(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", nil, SInt, parts...)
}

func Add(as ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, a := range as {
		addLin(&l, a, big.NewInt(1))
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	l := linOf(a)
	addLin(&l, b, big.NewInt(-1))
	return l.term()
}

func Neg(a *Term) *Term { return Sub(I(0), a) }

func Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return IB(new(big.Int).Mul(a.ival, b.ival))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		addLin(&l, b, a.ival)
		return l.term()
	}
	// pull constant factors out
	ca, ra := constFactor(a)
	cb, rb := constFactor(b)
	c := new(big.Int).Mul(ca, cb)
	if ra.id > rb.id {
		ra, rb = rb, ra
	}
	p := mk("*", "", nil, SInt, ra, rb)
	if c.Cmp(big.NewInt(1)) == 0 {
		return p
	}
	return Mul(IB(c), p)
}

func constFactor(a *Term) (*big.Int, *Term) {
	if a.op == "*" && a.args[0].isConst() {
		return a.args[0].ival, a.args[1]
	}
	return big.NewInt(1), a
}

func cmp(op string, a, b *Term) *Term {
	d := Sub(a, b)
	if d.isConst() {
		s := d.ival.Sign()
		switch op {
		case "<":
			return B(s < 0)
		case "<=":
			return B(s <= 0)
		}
	}
	return mk(op, "", nil, SBool, a, b)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func UF(name string, s Sort, args ...*Term) *Term {
	return mk("uf", name, nil, s, args...)
}

func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		d := Sub(a.args[1], i)
		if d.isConst() && d.ival.Sign() != 0 {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return mk("select", "", nil, a.sort.elem(), a, i)
}

func Store(a, i, v *Term) *Term {
	if v.sort != a.sort.elem() {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", nil, a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", nil, s, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "true" {
		return tTrue
	}
	args := []*Term{body}
	name := ""
	for _, v := range vars {
		name += v.name + " "
	}
	for _, p := range pats {
		name += fmt.Sprintf("/%d", len(p))
		args = append(args, p...)
	}
	t := mk("forall", name, nil, SBool, args...)
	t.qv = vars
	return t
}

// ---- facts attached to fresh symbols (definitional axioms) ----

var (
	factMu sync.Mutex
	facts  = map[int][]*Term{} // symbol/uf-app term id -> axioms
)

func addFact(sym *Term, f *Term) {
	if f.op == "true" {
		return
	}
	factMu.Lock()
	facts[sym.id] = append(facts[sym.id], f)
	factMu.Unlock()
}

// closure returns all facts reachable from the given terms.
var fbCache = map[int][]*Term{}

// freeBounds: the quantified variables occurring free in t.
func freeBounds(t *Term) []*Term {
	factMu.Lock()
	r, ok := fbCache[t.id]
	factMu.Unlock()
	if ok {
		return r
	}
	set := map[*Term]bool{}
	if t.op == "bound" {
		set[t] = true
	}
	for _, a := range t.args {
		for _, b := range freeBounds(a) {
			set[b] = true
		}
	}
	if t.op == "forall" {
		for _, b := range t.qv {
			delete(set, b)
		}
	}
	for b := range set {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	factMu.Lock()
	fbCache[t.id] = r
	factMu.Unlock()
	return r
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func factClosure(roots []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		factMu.Lock()
		fs := facts[t.id]
		factMu.Unlock()
		if len(fs) == 0 {
			return
		}
		if bv := freeBounds(t); len(bv) > 0 {
			if t.op != "uf" {
				return
			}
			for _, f := range fs {
				if sameTerms(freeBounds(f), bv) {
					q := Forall(bv, f, []*Term{t})
					out = append(out, q)
					for _, a := range q.args {
						visit(a)
					}
				} else if f.op == "forall" && len(freeBounds(f)) == 0 {
					out = append(out, f)
					visit(f)
				}
			}
			return
		}
		for _, f := range fs {
			out = append(out, f)
			visit(f)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

// ---- printing ----

type printer struct {
	b        strings.Builder
	names    map[int]string
	decl     map[string]string
	n        int
	hasBound map[int]map[*Term]bool
}

// free returns the bound variables occurring free in t.
func (p *printer) free(t *Term) map[*Term]bool {
	if v, ok := p.hasBound[t.id]; ok {
		return v
	}
	var r map[*Term]bool
	if t.op == "bound" {
		r = map[*Term]bool{t: true}
	}
	for _, a := range t.args {
		for v := range p.free(a) {
			if r == nil {
				r = map[*Term]bool{}
			}
			r[v] = true
		}
	}
	if t.op == "forall" && r != nil {
		n := map[*Term]bool{}
		for v := range r {
			n[v] = true
		}
		for _, v := range t.qv {
			delete(n, v)
		}
		r = n
	}
	p.hasBound[t.id] = r
	return r
}

func (p *printer) bound(t *Term) bool { return len(p.free(t)) > 0 }

func symName(n string) string { return "|" + n + "|" }

func (p *printer) ref(t *Term) string {
	switch t.op {
	case "const":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case "true", "false":
		return t.op
	case "bound":
		return symName(t.name)
	case "sym":
		d := fmt.Sprintf("(declare-const %s %s)\n", symName(t.name), t.sort)
		if _, ok := p.decl[t.name]; !ok {
			p.decl[t.name] = d
			p.b.WriteString(d)
		}
		return symName(t.name)
	}
	if n, ok := p.names[t.id]; ok {
		return n
	}
	var args []string
	isB := p.bound(t)
	var body string
	if t.op == "forall" {
		var vs []string
		for _, v := range t.qv {
			vs = append(vs, "("+symName(v.name)+" Int)")
		}
		inner := p.ref(t.args[0])
		pats := ""
		k := 1
		parts := strings.Split(t.name, "/")
		for _, s := range parts[1:] {
			n := 0
			fmt.Sscanf(s, "%d", &n)
			var ps []string
			for j := 0; j < n; j++ {
				ps = append(ps, p.ref(t.args[k]))
				k++
			}
			pats += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		if pats != "" {
			inner = "(! " + inner + pats + ")"
		}
		body = "(forall (" + strings.Join(vs, " ") + ") " + inner + ")"
	} else {
		for _, a := range t.args {
			args = append(args, p.ref(a))
		}
		switch t.op {
		case "uf":
			if _, ok := p.decl["uf:"+t.name]; !ok {
				var as []string
				for _, a := range t.args {
					as = append(as, string(a.sort))
				}
				p.decl["uf:"+t.name] = "x"
				fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", symName(t.name), strings.Join(as, " "), t.sort)
			}
			if len(args) == 0 {
				body = symName(t.name)
			} else {
				body = "(" + symName(t.name) + " " + strings.Join(args, " ") + ")"
			}
		case "constarr":
			body = fmt.Sprintf("((as const %s) %s)", t.sort, args[0])
		default:
			body = "(" + t.op + " " + strings.Join(args, " ") + ")"
		}
	}
	if isB {
		return body
	}
	p.n++
	nm := fmt.Sprintf("t%d", p.n)
	fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", nm, t.sort, body)
	p.names[t.id] = nm
	return nm
}

func newPrinter() *printer {
	return &printer{names: map[int]string{}, decl: map[string]string{}, hasBound: map[int]map[*Term]bool{}}
}

// smtQuery renders the satisfiability query of the conjunction of as (with their facts).
func smtQuery(as []*Term) string {
	all := append([]*Term{}, as...)
	all = append(all, factClosure(as)...)
	p := newPrinter()
	seen := map[int]bool{}
	for _, a := range all {
		if seen[a.id] || a.op == "true" || p.bound(a) { // a fact about a bound variable says nothing here
			continue
		}
		seen[a.id] = true
		r := p.ref(a)
		fmt.Fprintf(&p.b, "(assert %s)\n", r)
	}
	return p.b.String()
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	switch t.op {
	case "const":
		return t.ival.String()
	case "true", "false":
		return t.op
	case "sym", "bound":
		return t.name
	}
	if d > 12 {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	n := t.op
	if n == "uf" {
		n = t.name
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// symbols collects symbolic constants in a term (through facts too).
func collectSyms(roots []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "sym" {
			out = append(out, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}
