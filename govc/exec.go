package main

// Symbolic execution of go/ssa functions: forward path enumeration with solver
// pruning; callees with contracts are replaced by their contract, others inlined.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outKind int

const (
	oReturn outKind = iota
	oPanic
	oBack
	oStop
)

type outcome struct {
	kind outKind
	st   *State
	vals []Val // results, or header phi values for oBack
	msg  string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	unroll map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loopInfo
	// innermost active loop in "one iteration" mode, and whether leaving it stops
	gen  []*genLoop
	name string
}

type genLoop struct {
	l      *loopInfo
	stopEx bool
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, loops: f.loops, name: f.name}
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.gen = append([]*genLoop{}, f.gen...)
	return n
}

type exec struct {
	P           *Program
	inc         *incSolver
	depth       int
	stack       []*ssa.Function
	onHeapStore func(st *State, name string, h, ref, v *Term)
	onStep      func()
	unit        *Unit
	paths       int
	steps       int
	used        map[string]bool // contracts used modularly
	inlined     map[string]bool
	externals   map[string]bool // intrinsics / trusted externals used
	intrinsics  map[string]bool
	local       map[string]*Contract // contracts named by the unit's "using"
	globalsUsed map[string]bool
	unknowns    int
	satCache    map[string]string
	maxPaths    int
	safety      bool // emit obligations for panics
	sqrtArgs    []*Term
	loopCache   map[string]*loopCacheE
	spendDone   map[*Term]bool
	recording   bool
	inInit      bool
	ovf         *[]*State // states at which a decimal operation overflows
	recovering  []*Term
	abstract    string // an interface the implementations of which are unknown
	storeLevel  bool   // execute the KV accessors themselves instead of their contract
	noModular   map[string]bool
}

func (x *exec) useExt(n string) {
	if x.externals != nil {
		x.externals[n] = true
	}
}

func (x *exec) feasible(st *State, extra *Term) bool {
	if extra.op == "false" {
		return false
	}
	neg := Not(extra)
	for _, p := range st.pc {
		if p == extra {
			return true
		}
		if p == neg || p.op == "false" {
			return false
		}
	}
	q := smtQuery(append(append([]*Term{}, st.pc...), extra))
	if r, ok := x.satCache[q]; ok {
		return r != "unsat"
	}
	ms := 400
	if g := ground(st.pc); len(g) < len(st.pc) {
		// a branch is mostly refuted without the quantified facts; with them
		// a query that is satisfiable usually ends undecided
		r := x.inc.check(smtQuery(append(g, extra)), 400)
		if r == "unsat" {
			x.satCache[q] = r
			return false
		}
		ms = 120
	}
	r := x.inc.check(q, ms)
	x.satCache[q] = r
	return r != "unsat"
}

// ground drops the facts that carry a quantifier.
func ground(pc []*Term) []*Term {
	out := make([]*Term, 0, len(pc)+1)
	for _, p := range pc {
		if !hasQuant(p) {
			out = append(out, p)
		}
	}
	return out
}

var quantMemo = map[*Term]bool{}
var quantMu sync.Mutex

func hasQuant(t *Term) bool {
	quantMu.Lock()
	defer quantMu.Unlock()
	return hasQuantL(t)
}

func hasQuantL(t *Term) bool {
	if t.op == "forall" {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if v, ok := quantMemo[t]; ok {
		return v
	}
	v := false
	for _, a := range t.args {
		if hasQuantL(a) {
			v = true
			break
		}
	}
	quantMemo[t] = v
	return v
}

// entails: quick check that the path condition implies t.
func (x *exec) entails(st *State, t *Term) bool {
	if t.op == "true" {
		return true
	}
	return !x.feasibleMs(st, Not(t), 1500)
}

func (x *exec) feasibleMs(st *State, extra *Term, ms int) bool {
	if extra.op == "false" {
		return false
	}
	q := smtQuery(append(append([]*Term{}, st.pc...), extra))
	if r, ok := x.satCache[q]; ok && r != "unknown" {
		return r != "unsat"
	}
	// A unit whose path conditions carry quantifiers sees many undecided
	// queries; an undecided query only keeps a path, so later ones get less.
	if x.unknowns > 4 && ms > 250 {
		ms = ms * 4 / x.unknowns
		if ms < 250 {
			ms = 250
		}
	}
	t0 := time.Now()
	r := x.inc.check(q, ms)
	x.satCache[q] = r
	if r == "unknown" {
		x.unknowns++
	}
	if d := time.Since(t0); d > 400*time.Millisecond {
		dbg("  slow %.1fs/%.1fs %s %s", d.Seconds(), float64(ms)/1000, r, clip(extra.String(), 200))
	}
	return r != "unsat"
}

// known decides a condition from the path condition, with the solver.
func (x *exec) known(st *State, c *Term) (val, ok bool) {
	switch c.op {
	case "true":
		return true, true
	case "false":
		return false, true
	}
	if !x.feasible(st, Not(c)) {
		return true, true
	}
	if !x.feasible(st, c) {
		return false, true
	}
	return false, false
}

// callFn runs a function body on args.
func (x *exec) callFn(st *State, fn *ssa.Function, args []Val, binds []Val) []outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if len(x.stack) > 60 {
		panic(unsupported("call depth"))
	}
	for _, f := range x.stack {
		if f == fn && fn.Parent() == nil {
			n := 0
			for _, g := range x.stack {
				if g == fn {
					n++
				}
			}
			if n > 3 {
				panic(unsupported("recursion without a contract: " + fn.String()))
			}
		}
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]int{}, loops: x.P.loopsOf(fn)}
	for i, p := range fn.Params {
		if i >= len(args) {
			panic(unsupported("arity of " + fn.String()))
		}
		fr.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		fr.env[b] = binds[i]
	}
	return x.block(st, fr, fn.Blocks[0], nil)
}

// block enters a basic block coming from prev.
func (x *exec) block(st *State, fr *Frame, b, prev *ssa.BasicBlock) []outcome {
	// leaving loops in single-iteration mode
	for len(fr.gen) > 0 {
		g := fr.gen[len(fr.gen)-1]
		if g.l.body[b] {
			break
		}
		if g.stopEx {
			return []outcome{{kind: oStop, st: st}}
		}
		fr.gen = fr.gen[:len(fr.gen)-1]
	}
	if l := fr.loops[b]; l != nil {
		phis := x.phiVals(st, fr, b, prev)
		if prev != nil && l.body[prev] { // back edge
			if len(fr.gen) > 0 && fr.gen[len(fr.gen)-1].l == l {
				return []outcome{{kind: oBack, st: st, vals: phis}}
			}
		}
		x.setPhis(fr, b, phis)
		if fr.unroll[b] < 40 && x.headerConst(st, fr, b) {
			fr.unroll[b]++
			return x.instrs(st, fr, b, x.firstNonPhi(b))
		}
		fr.unroll[b] = 0
		return x.runLoop(st, fr, l, phis)
	}
	if prev != nil {
		x.setPhis(fr, b, x.phiVals(st, fr, b, prev))
	}
	return x.instrs(st, fr, b, x.firstNonPhi(b))
}

func (x *exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *exec) phiVals(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Val {
	var out []Val
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, x.val(st, fr, p.Edges[k]))
		} else {
			break
		}
	}
	return out
}

func (x *exec) setPhis(fr *Frame, b *ssa.BasicBlock, vs []Val) {
	i := 0
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			fr.env[p] = vs[i]
			i++
		} else {
			break
		}
	}
}

// headerConst: does the header's exit test evaluate to a constant here?
func (x *exec) headerConst(st *State, fr *Frame, b *ssa.BasicBlock) bool {
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range b.Instrs {
		switch v := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		case *ssa.Next:
			return false
		default:
			return false
		}
	}
	s2, f2 := st.clone(), fr.clone()
	s2.log = nil
	for i := x.firstNonPhi(b); i < len(b.Instrs)-1; i++ {
		in := b.Instrs[i]
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		r := x.simple(s2, f2, v)
		f2.env[v] = r
	}
	c, ok := x.val(s2, f2, last.Cond).(*Term)
	return ok && (c.op == "true" || c.op == "false")
}

// instrs executes from instruction index i.
func (x *exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) []outcome {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 3000000 {
			panic(unsupported("step limit"))
		}
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.term(st, fr, v.Cond)
			if c.op == "true" {
				return x.block(st, fr, b.Succs[0], b)
			}
			if c.op == "false" {
				return x.block(st, fr, b.Succs[1], b)
			}
			ft := x.feasible(st, c)
			ff := x.feasible(st, Not(c))
			var out []outcome
			if ft && ff {
				s2, f2 := st.clone(), fr.clone()
				s2.assume(Not(c))
				st.assume(c)
				out = append(out, x.block(st, fr, b.Succs[0], b)...)
				out = append(out, x.block(s2, f2, b.Succs[1], b)...)
				return x.limit(out)
			}
			if ft {
				st.assume(c)
				return x.block(st, fr, b.Succs[0], b)
			}
			if ff {
				st.assume(Not(c))
				return x.block(st, fr, b.Succs[1], b)
			}
			return nil
		case *ssa.Jump:
			return x.block(st, fr, b.Succs[0], b)
		case *ssa.Return:
			var rs []Val
			for _, r := range v.Results {
				rs = append(rs, x.val(st, fr, r))
			}
			return []outcome{{kind: oReturn, st: st, vals: rs}}
		case *ssa.Panic:
			x.panicHere(st, fr, "panic at "+x.P.pos(v.Pos()))
			return []outcome{{kind: oPanic, st: st, msg: x.P.pos(v.Pos())}}
		case *ssa.RunDefers:
			// deferred calls are executed in reverse order
			ds := fr.defers
			fr.defers = nil
			outs := x.runDefers(st, ds, I(0))
			if len(outs) != 1 || outs[0].kind != oReturn {
				var res []outcome
				for _, o := range outs {
					if o.kind == oReturn {
						res = append(res, x.instrs(o.st, fr.clone(), b, i+1)...)
					} else {
						res = append(res, o)
					}
				}
				return res
			}
			st = outs[0].st
		case *ssa.Defer:
			if x.ignorableCall(&v.Call) {
				continue
			}
			f, ok := x.val(st, fr, v.Call.Value).(Func)
			if !ok || v.Call.IsInvoke() {
				panic(unsupported("defer of " + v.Call.String()))
			}
			d := deferred{f: f, pos: x.P.pos(v.Pos())}
			for _, a := range v.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
			if fr.fn.Recover != nil && recovers(f) {
				// the rest of the function may panic at any point: arbitrary
				// locals, then the deferred function with a recovered panic
				s2, f2 := st.clone(), fr.clone()
				for k, av := range f2.env {
					if a, ok := k.(*ssa.Alloc); ok {
						if p, ok := av.(Ptr); ok && p.Cell != nil {
							if _, isM := s2.cells[p.Cell].(moved); !isM {
								_ = a
								s2.setCell(p.Cell, x.freshVal(s2, p.Cell.T, "panicked"))
							}
						}
					}
				}
				ds := f2.defers
				f2.defers = nil
				var res []outcome
				pv := Fresh("panicvalue", SInt)
				s2.assume(Ne(pv, I(0)))
				for _, o := range x.runDefers(s2, ds, pv) {
					if o.kind == oReturn {
						res = append(res, x.block(o.st, f2.clone(), fr.fn.Recover, nil)...)
					} else {
						res = append(res, o)
					}
				}
				return append(res, x.instrs(st, fr, b, i+1)...)
			}
		case *ssa.Store:
			p, ok := x.val(st, fr, v.Addr).(Ptr)
			if !ok {
				panic(unsupported("store to " + v.Addr.String()))
			}
			if x.safety && p.Ref != nil {
				x.safe(st, fr, Ne(p.Ref, I(0)), "nil dereference at "+x.P.pos(v.Pos()))
			}
			x.store(st, p, x.val(st, fr, v.Val))
		case *ssa.MapUpdate:
			x.mapUpdate(st, x.val(st, fr, v.Map), x.val(st, fr, v.Key), x.val(st, fr, v.Value))
		case *ssa.Call:
			outs := x.call(st, fr, &v.Call, v)
			if outs == nil {
				return nil
			}
			if len(outs) == 1 && outs[0].kind == oReturn {
				st = outs[0].st
				x.setResult(fr, v, outs[0].vals)
				continue
			}
			var res []outcome
			for k, o := range outs {
				switch o.kind {
				case oReturn:
					f2 := fr
					if k < len(outs)-1 {
						f2 = fr.clone()
					}
					x.setResult(f2, v, o.vals)
					res = append(res, x.instrs(o.st, f2, b, i+1)...)
					res = x.limit(res)
				default:
					res = append(res, o)
				}
			}
			return res
		case *ssa.Go, *ssa.Select, *ssa.Send:
			panic(unsupported(in.String()))
		case *ssa.Next:
			return x.execNext(st, fr, b, i, v)
		default:
			if vv, ok := in.(ssa.Value); ok {
				outs := x.multi(st, fr, vv)
				if outs != nil {
					var res []outcome
					for k, o := range outs {
						f2 := fr
						if k < len(outs)-1 {
							f2 = fr.clone()
						}
						f2.env[vv] = o.vals[0]
						res = append(res, x.instrs(o.st, f2, b, i+1)...)
					}
					return res
				}
				fr.env[vv] = x.simple(st, fr, vv)
			} else {
				panic(unsupported(in.String()))
			}
		}
		for _, p := range st.pc {
			if p.op == "false" {
				return nil
			}
		}
	}
	return nil
}

type deferred struct {
	f    Func
	args []Val
	pos  string
}

func recovers(f Func) bool {
	fn, ok := f.Fn.(*ssa.Function)
	if !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (x *exec) runDefers(st *State, ds []deferred, pv *Term) []outcome {
	cur := ret(st)
	for k := len(ds) - 1; k >= 0; k-- {
		var next []outcome
		for _, o := range cur {
			if o.kind != oReturn {
				next = append(next, o)
				continue
			}
			x.recovering = append(x.recovering, pv)
			next = append(next, x.callVal(o.st, ds[k].f, ds[k].args, ds[k].pos)...)
			x.recovering = x.recovering[:len(x.recovering)-1]
		}
		cur = next
	}
	return cur
}

func (x *exec) limit(o []outcome) []outcome {
	n := x.maxPaths
	if n == 0 {
		n = 6000
	}
	if len(o) > n {
		panic(unsupported("path limit"))
	}
	return o
}

func (x *exec) setResult(fr *Frame, v *ssa.Call, vals []Val) {
	sig := v.Call.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		if len(vals) != 1 {
			panic(unsupported("result arity " + v.String()))
		}
		fr.env[v] = vals[0]
	default:
		fr.env[v] = Tuple(vals)
	}
}

func (x *exec) panicHere(st *State, fr *Frame, what string) {
	if x.safety && !x.recording {
		x.unit.oblige("no-panic", what, st, tFalse)
	}
}

func (x *exec) safe(st *State, fr *Frame, cond *Term, what string) {
	if x.safety && cond.op != "true" && !x.recording {
		x.unit.oblige("no-panic", what, st, cond)
	}
}

func (x *exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	t, ok := x.val(st, fr, v).(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected scalar for %s (%T)", v, x.val(st, fr, v))))
	}
	return t
}

func (x *exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return Func{Fn: c}
	case *ssa.Builtin:
		return Func{Fn: c}
	case *ssa.Global:
		return Ptr{Cell: x.P.globalCell(c), T: c.Type().(*types.Pointer).Elem()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported("undefined value " + v.Name() + " in " + fr.fn.String()))
	}
	return r
}

func (x *exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		if isBytes(c.Type()) {
			return Rope{[]Seg{{kind: "lit", lit: []byte(constant.StringVal(c.Value))}}}
		}
		return strConst(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return IB(n)
	case constant.Float:
		return strConst("float:" + c.Value.ExactString())
	}
	panic(unsupported("constant " + c.String()))
}

// multi handles instructions that may fork; nil if not applicable.
func (x *exec) multi(st *State, fr *Frame, v ssa.Value) []outcome {
	switch t := v.(type) {
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, t)
	}
	return nil
}

func (x *exec) wrap(t types.Type, v *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8, types.Uint16, types.Uint32:
		lo, hi := intRange(b)
		if v.isConst() {
			m := new(big.Int).Add(hi, big.NewInt(1))
			r := new(big.Int).Mod(v.ival, m)
			return IB(r)
		}
		_ = lo
		m := new(big.Int).Add(hi, big.NewInt(1))
		return mk("mod", "", nil, SInt, v, IB(m))
	}
	return v
}

func (x *exec) simple(st *State, fr *Frame, v ssa.Value) Val {
	switch t := v.(type) {
	case *ssa.Alloc:
		et := t.Type().(*types.Pointer).Elem()
		c := newCell(t.Comment, et)
		st.cells[c] = zeroVal(et)
		return Ptr{Cell: c, T: et}
	case *ssa.Phi:
		return fr.env[t]
	case *ssa.BinOp:
		return x.binop(st, fr, t)
	case *ssa.UnOp:
		return x.unop(st, fr, t)
	case *ssa.FieldAddr:
		p, ok := x.val(st, fr, t.X).(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address of %T", x.val(st, fr, t.X))))
		}
		if p.Ref != nil && len(p.Path) == 0 {
			x.safe(st, fr, Ne(p.Ref, I(0)), "nil dereference at "+x.P.pos(t.Pos()))
			x.needNonNil(st, p.Ref)
		}
		np := p
		np.Path = append(append([]int{}, p.Path...), t.Field)
		return np
	case *ssa.Field:
		s, ok := x.val(st, fr, t.X).(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T (%s)", x.val(st, fr, t.X), t.X.Type())))
		}
		return s.F[t.Field]
	case *ssa.IndexAddr:
		return x.indexAddr(st, fr, t)
	case *ssa.Index:
		xv := x.val(st, fr, t.X)
		i := x.term(st, fr, t.Index)
		if s, ok := xv.(*Struct); ok && i.isConst() {
			return s.F[int(i.ival.Int64())]
		}
		if s, ok := xv.(*Term); ok {
			if cs, ok2 := constStr(s); ok2 && i.isConst() {
				return I(int64(cs[i.ival.Int64()]))
			}
			r := UF("strAt", SInt, s, i)
			st.assume(And(Le(I(0), r), Le(r, I(255))))
			return r
		}
		panic(unsupported("index " + t.String()))
	case *ssa.Slice:
		return x.sliceOp(st, fr, t)
	case *ssa.MakeSlice:
		return x.makeSlice(st, fr, t)
	case *ssa.MakeMap:
		mt := t.Type().Underlying().(*types.Map)
		c := newCell("map", mt)
		mv := &MapVal{T: mt, Dom: ConstArr(arrSort(SBool), tFalse), Sum: I(0), Size: I(0)}
		for _, l := range flatten(mt.Elem()) {
			var z *Term = I(0)
			if l.sort == SBool {
				z = tFalse
			} else if l.sort.isArr() {
				z = ConstArr(l.sort, I(0))
			}
			mv.L = append(mv.L, ConstArr(arrSort(l.sort), z))
		}
		st.cells[c] = mv
		return MapRef{Cell: c, T: mt}
	case *ssa.MakeInterface:
		return Iface{Dyn: t.X.Type(), V: x.val(st, fr, t.X), T: t.Type()}
	case *ssa.ChangeInterface:
		i := x.val(st, fr, t.X)
		if ii, ok := i.(Iface); ok {
			ii.T = t.Type()
			return ii
		}
		return i
	case *ssa.ChangeType:
		return x.changeType(st, x.val(st, fr, t.X), t.X.Type(), t.Type())
	case *ssa.Convert:
		return x.convert(st, x.val(st, fr, t.X), t.X.Type(), t.Type())
	case *ssa.Extract:
		tu, ok := x.val(st, fr, t.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract"))
		}
		return tu[t.Index]
	case *ssa.MakeClosure:
		f := Func{Fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			f.Binds = append(f.Binds, x.val(st, fr, b))
		}
		return f
	case *ssa.Lookup:
		return x.lookup(st, fr, t)
	case *ssa.Range:
		m := x.val(st, fr, t.X)
		mr, ok := m.(MapRef)
		if !ok {
			panic(unsupported("range over " + t.X.Type().String()))
		}
		return x.newRange(st, mr)
	case *ssa.Call:
		// only builtin len in header dry runs
		outs := x.call(st, fr, &t.Call, t)
		if len(outs) != 1 {
			panic(unsupported("call in header"))
		}
		return outs[0].vals[0]
	case *ssa.TypeAssert:
		panic(unsupported("typeassert"))
	case *ssa.SliceToArrayPointer, *ssa.MakeChan:
		panic(unsupported(v.String()))
	}
	panic(unsupported(fmt.Sprintf("%T %s", v, v)))
}

func (x *exec) changeType(st *State, v Val, from, to types.Type) Val {
	if isBag(to) && !isBag(from) {
		if s, ok := v.(*Slice); ok {
			return x.bagOfSlice(st, s)
		}
	}
	if isBag(from) && !isBag(to) {
		if b, ok := v.(*Bag); ok {
			return b
		}
	}
	switch vv := v.(type) {
	case *Struct:
		return &Struct{T: to, F: vv.F}
	case *Slice:
		n := *vv
		if s, ok := to.Underlying().(*types.Slice); ok {
			n.Elem = s.Elem()
		}
		return &n
	case Iface:
		vv.T = to
		return vv
	}
	return v
}

func (x *exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			t := v.(*Term)
			switch tb.Kind() {
			case types.Uint8, types.Uint16, types.Uint32:
				if lo, hi := intRange(fb); lo != nil {
					_, th := intRange(tb)
					if lo.Sign() >= 0 && hi.Cmp(th) <= 0 {
						return t
					}
				}
				return x.wrap(to, t)
			}
			// 64-bit: treated as mathematical; a negative int converted to an
			// unsigned type wraps
			if fb.Info()&types.IsUnsigned == 0 && tb.Info()&types.IsUnsigned != 0 {
				if t.isConst() && t.ival.Sign() >= 0 {
					return t
				}
				return Ite(Lt(t, I(0)), Add(t, IB(pow2(64))), t)
			}
			if fb.Info()&types.IsUnsigned != 0 && tb.Info()&types.IsUnsigned == 0 && tb.Kind() != types.Int32 {
				lo, hi := intRange(fb)
				_ = lo
				_, th := intRange(tb)
				if hi.Cmp(th) > 0 && !t.isConst() {
					return Ite(Gt(t, IB(th)), Sub(t, IB(pow2(64))), t)
				}
			}
			return t
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return UF("runeStr", SInt, v.(*Term))
		}
		if tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 {
			if t, ok := v.(*Term); ok && tb.Info()&types.IsInteger != 0 && t.op == "uf" && t.name == "fpow10" {
				// powers of ten up to 10^18 are exact in a float64
				if k, ok := x.constOf2(st, t.args[0]); ok && k >= 0 && k <= 18 {
					return pow10(k)
				}
			}
			return UF("fconv", SInt, v.(*Term))
		}
	}
	if isBytes(to) && ok1 && fb.Info()&types.IsString != 0 {
		if s, ok := v.(*Term); ok {
			if cs, ok := constStr(s); ok {
				return Rope{[]Seg{{kind: "lit", lit: []byte(cs)}}}
			}
			return Rope{[]Seg{{kind: "var", t: s, n: strLen(st, s)}}}
		}
	}
	if isBytes(from) && ok2 && tb.Info()&types.IsString != 0 {
		return x.bytesToString(st, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x.changeType(st, v, from, to)
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

var curExec *exec

func strLen(st *State, s *Term) *Term {
	if cs, ok := constStr(s); ok {
		return I(int64(len(cs)))
	}
	if s.op == "uf" && s.name == "decText" && curExec != nil && st != nil && curExec.entails(st, Ge(s.args[0], I(0))) {
		return curExec.digits(st, s.args[0])
	}
	l := UF("strLen", SInt, s)
	if st != nil {
		st.assume(Le(I(0), l))
		st.assume(Le(l, I(1<<30)))
		st.assume(Eq(Eq(s, I(0)), Eq(l, I(0))))
	}
	return l
}

func (x *exec) binop(st *State, fr *Frame, t *ssa.BinOp) Val {
	a, b := x.val(st, fr, t.X), x.val(st, fr, t.Y)
	switch t.Op {
	case token.EQL:
		return x.equal(st, a, b, t.X.Type())
	case token.NEQ:
		return Not(x.equal(st, a, b, t.X.Type()))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("binop " + t.String()))
	}
	bt, _ := t.X.Type().Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch t.Op {
		case token.ADD:
			if s1, ok := constStr(ta); ok {
				if s2, ok := constStr(tb); ok {
					return strConst(s1 + s2)
				}
			}
			return UF("strCat", SInt, ta, tb)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			l := func(a, b *Term) *Term { return UF("strLess", SBool, a, b) }
			switch t.Op {
			case token.LSS:
				return l(ta, tb)
			case token.GTR:
				return l(tb, ta)
			case token.LEQ:
				return Not(l(tb, ta))
			case token.GEQ:
				return Not(l(ta, tb))
			}
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		if t.Type().Underlying().(*types.Basic).Info()&types.IsBoolean != 0 {
			return UF("fcmp"+t.Op.String(), SBool, ta, tb)
		}
		return UF("fop"+t.Op.String(), SInt, ta, tb)
	}
	switch t.Op {
	case token.ADD:
		return x.wrap(t.Type(), Add(ta, tb))
	case token.SUB:
		r := Sub(ta, tb)
		if bt != nil && bt.Info()&types.IsUnsigned != 0 && !(r.isConst() && r.ival.Sign() >= 0) {
			switch bt.Kind() {
			case types.Uint8, types.Uint16, types.Uint32:
				return x.wrap(t.Type(), r)
			}
			return Ite(Lt(r, I(0)), Add(r, IB(pow2(64))), r)
		}
		return x.wrap(t.Type(), r)
	case token.MUL:
		return x.wrap(t.Type(), Mul(ta, tb))
	case token.QUO:
		x.safe(st, fr, Ne(tb, I(0)), "division by zero at "+x.P.pos(t.Pos()))
		st.assume(Ne(tb, I(0)))
		return goDiv(ta, tb)
	case token.REM:
		x.safe(st, fr, Ne(tb, I(0)), "division by zero at "+x.P.pos(t.Pos()))
		st.assume(Ne(tb, I(0)))
		return Sub(ta, Mul(tb, goDiv(ta, tb)))
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Gt(ta, tb)
	case token.GEQ:
		return Ge(ta, tb)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		if ta.sort == SBool {
			switch t.Op {
			case token.AND:
				return And(ta, tb)
			case token.OR:
				return Or(ta, tb)
			}
		}
		if ta.isConst() && tb.isConst() {
			return I(foldBits(t.Op, ta.ival.Int64(), tb.ival.Int64()))
		}
		if t.Op == token.SHL && tb.isConst() {
			return x.wrap(t.Type(), Mul(ta, IB(pow2(uint(tb.ival.Int64())))))
		}
		return UF("bit"+t.Op.String(), SInt, ta, tb)
	}
	panic(unsupported("binop " + t.Op.String()))
}

func foldBits(op token.Token, a, b int64) int64 {
	switch op {
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL:
		return a << uint(b)
	case token.SHR:
		return a >> uint(b)
	}
	return 0
}

// goDiv: truncated integer division with b != 0.
func goDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.ival.Sign() != 0 {
		return IB(new(big.Int).Quo(a.ival, b.ival))
	}
	q := UF("tdiv", SInt, a, b)
	if b.isConst() && b.ival.Sign() > 0 {
		// linear axioms
		r := Sub(a, Mul(b, q))
		addOnce(q, And(
			Imp(Ge(a, I(0)), And(Le(I(0), r), Lt(r, b), Ge(q, I(0)))),
			Imp(Lt(a, I(0)), And(Le(r, I(0)), Lt(Neg(b), r), Le(q, I(0))))))
		return q
	}
	r := Sub(a, Mul(b, q))
	addOnce(q, And(
		Imp(And(Ge(a, I(0)), Gt(b, I(0))), And(Le(I(0), r), Lt(r, b), Ge(q, I(0)))),
		Imp(And(Lt(a, I(0)), Gt(b, I(0))), And(Le(r, I(0)), Lt(Neg(b), r), Le(q, I(0)))),
		Imp(And(Ge(a, I(0)), Lt(b, I(0))), And(Le(I(0), r), Lt(r, Neg(b)), Le(q, I(0)))),
		Imp(And(Lt(a, I(0)), Lt(b, I(0))), And(Le(r, I(0)), Lt(b, r), Ge(q, I(0))))))
	return q
}

var factDone = map[int]bool{}

func addOnce(t, f *Term) {
	if t.op != "uf" && t.op != "sym" {
		return
	}
	if factDone[t.id] {
		return
	}
	factDone[t.id] = true
	addFact(t, f)
}

func (x *exec) equal(st *State, a, b Val, t types.Type) *Term {
	if _, ok := a.(Blob); ok { // an encoded record is never nil
		a, b = b, a
	}
	if _, ok := b.(Blob); ok {
		if z, ok := a.(*Term); ok && z.isConst() {
			return tFalse
		}
		panic(unsupported("comparison of encoded records"))
	}
	if r, ok := a.(Rope); ok {
		if _, t := b.(*Term); t {
			a, b = b, r
		}
	}
	switch va := a.(type) {
	case *Term:
		if tb, ok := b.(*Term); ok {
			return Eq(va, tb)
		}
		if r, ok := b.(Rope); ok {
			if va.isConst() && va.ival.Sign() == 0 {
				for _, s := range r.norm().S {
					if s.kind == "u64" || s.kind == "u8" || s.kind == "lit" && len(s.lit) > 0 {
						return tFalse
					}
				}
			}
			return Eq(va, ropeCode(r))
		}
	case Ptr:
		vb, ok := b.(Ptr)
		if !ok {
			break
		}
		if va.Cell != nil && vb.Cell != nil {
			return B(va.Cell == vb.Cell && fmt.Sprint(va.Path) == fmt.Sprint(vb.Path))
		}
		if va.Cell != nil && vb.Ref != nil && vb.Ref.isConst() && vb.Ref.ival.Sign() == 0 {
			return tFalse
		}
		if vb.Cell != nil && va.Ref != nil && va.Ref.isConst() && va.Ref.ival.Sign() == 0 {
			return tFalse
		}
		if va.Sl != nil || vb.Sl != nil {
			break
		}
		return Eq(x.reifyPtr(st, va), x.reifyPtr(st, vb))
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			break
		}
		nilOf := func(i Iface) bool {
			return i.Dyn == nil && i.Ref.isConst() && i.Ref.ival.Sign() == 0
		}
		if nilOf(va) && vb.Dyn != nil || nilOf(vb) && va.Dyn != nil {
			return tFalse
		}
		return Eq(x.reifyIface(st, va), x.reifyIface(st, vb))
	case *Slice:
		vb, ok := b.(*Slice)
		if ok && vb.NilV {
			if va.Arr != nil {
				return tFalse
			}
			return Eq(va.Id, I(0))
		}
		if ok && va.NilV {
			if vb.Arr != nil {
				return tFalse
			}
			return Eq(vb.Id, I(0))
		}
	case Rope:
		if tb, ok := b.(*Term); ok {
			return Eq(ropeCode(va), tb)
		}
		if rb, ok := b.(Rope); ok {
			return x.ropeEq(st, va, rb)
		}
	case Num:
		vb := b.(Num)
		return And(Eq(va.Nil, vb.Nil), Eq(va.V, vb.V))
	case *Struct:
		vb := b.(*Struct)
		r := tTrue
		for i := range va.F {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}
			r = And(r, x.equal(st, va.F[i], vb.F[i], ft))
		}
		return r
	case *Bag:
		if vb, ok := b.(*Bag); ok {
			return Eq(va.A, vb.A)
		}
		if s, ok := b.(*Slice); ok && s.NilV {
			return Eq(va.A, ConstArr(arrSort(SInt), I(0)))
		}
	case Func:
		if vb, ok := b.(Func); ok {
			return B(va.Fn == nil && va.Nat == nil && vb.Fn == nil && vb.Nat == nil)
		}
	case MapRef:
		if vb, ok := b.(MapRef); ok {
			if va.Cell != nil || vb.Cell != nil {
				if va.Cell == vb.Cell {
					return tTrue
				}
				if va.isNil() || vb.isNil() {
					return tFalse
				}
				panic(unsupported("equality of maps"))
			}
			a, b := I(0), I(0)
			if va.Ref != nil {
				a = va.Ref
			}
			if vb.Ref != nil {
				b = vb.Ref
			}
			return Eq(a, b)
		}
	case Opaque:
		if vb, ok := b.(Opaque); ok {
			return Eq(va.C, vb.C)
		}
		if vb, ok := b.(MapRef); ok && vb.isNil() {
			return Eq(va.C, I(0))
		}
	}
	panic(unsupported(fmt.Sprintf("equality of %T and %T", a, b)))
}

func (x *exec) unop(st *State, fr *Frame, t *ssa.UnOp) Val {
	v := x.val(st, fr, t.X)
	switch t.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("deref of %T %s", v, t)))
		}
		if p.Ref != nil {
			x.safe(st, fr, Ne(p.Ref, I(0)), "nil dereference at "+x.P.pos(t.Pos()))
		}
		return x.load(st, p)
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		return x.wrap(t.Type(), Neg(v.(*Term)))
	case token.XOR:
		return UF("bitnot", SInt, v.(*Term))
	}
	panic(unsupported("unop " + t.String()))
}

func (x *exec) indexAddr(st *State, fr *Frame, t *ssa.IndexAddr) Val {
	v := x.val(st, fr, t.X)
	i := x.term(st, fr, t.Index)
	switch s := v.(type) {
	case *Slice:
		x.safe(st, fr, And(Le(I(0), i), Lt(i, x.lenOf(s))), "index out of range at "+x.P.pos(t.Pos()))
		return x.elemPtr(st, s, i)
	case *Bag:
		x.safe(st, fr, And(Le(I(0), i), Lt(i, x.bagLen(st, s))), "index out of range at "+x.P.pos(t.Pos()))
		c := newCell("coin", t.Type().(*types.Pointer).Elem())
		st.cells[c] = x.bagElem(st, s, i, c.T)
		return Ptr{Cell: c, T: c.T}
	case Ptr: // pointer to array
		if i.isConst() {
			np := s
			np.Path = append(append([]int{}, s.Path...), int(i.ival.Int64()))
			return np
		}
	case Rope:
		c := newCell("byte", types.Typ[types.Uint8])
		st.cells[c] = x.ropeAt(st, fr, s, i, x.P.pos(t.Pos()))
		return Ptr{Cell: c, T: c.T}
	case *Term:
		if isBytes(t.X.Type()) {
			r := x.asRope(st, s)
			c := newCell("byte", types.Typ[types.Uint8])
			st.cells[c] = x.ropeAt(st, fr, r, i, x.P.pos(t.Pos()))
			return Ptr{Cell: c, T: c.T}
		}
	}
	panic(unsupported(fmt.Sprintf("index address %T[%s]", v, i)))
}

func (x *exec) sliceOp(st *State, fr *Frame, t *ssa.Slice) Val {
	v := x.val(st, fr, t.X)
	var lo, hi *Term
	if t.Low != nil {
		lo = x.term(st, fr, t.Low)
	} else {
		lo = I(0)
	}
	if t.High != nil {
		hi = x.term(st, fr, t.High)
	}
	switch s := v.(type) {
	case Ptr: // array pointer
		at, ok := s.T.Underlying().(*types.Array)
		if !ok {
			break
		}
		if isBytes(t.Type()) {
			arr := x.load(st, s).(*Struct)
			r := Rope{}
			for _, f := range arr.F {
				ft := f.(*Term)
				if ft.isConst() {
					r.S = append(r.S, Seg{kind: "lit", lit: []byte{byte(ft.ival.Int64())}, n: I(1)})
				} else {
					r.S = append(r.S, Seg{kind: "u8", t: ft, n: I(1)})
				}
			}
			return r.norm()
		}
		if s.Cell != nil && len(s.Path) == 0 && lo.isConst() && (hi == nil || hi.isConst()) {
			n := int(at.Len())
			l := int(lo.ival.Int64())
			h := n
			if hi != nil {
				h = int(hi.ival.Int64())
			}
			sl := &Slice{Elem: at.Elem(), Arr: s.Cell, Lo: l, N: h - l}
			if isBag(t.Type()) {
				return x.bagOfSlice(st, sl)
			}
			return sl
		}
	case *Slice:
		n := x.lenOf(s)
		if hi == nil {
			hi = n
		}
		x.safe(st, fr, And(Le(I(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds at "+x.P.pos(t.Pos()))
		// slicing beyond len up to cap is not modelled: treated as a panic
		st.assume(And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		if s.Arr != nil && lo.isConst() && hi.isConst() {
			l, h := int(lo.ival.Int64()), int(hi.ival.Int64())
			if l < 0 || h < l || h > s.N {
				return s
			}
			return &Slice{Elem: s.Elem, Arr: s.Arr, Lo: s.Lo + l, N: h - l}
		}
		r := x.reifySlice(st, s)
		return &Slice{Elem: s.Elem, Id: r.Id, Off: Add(r.Off, lo), Len: Sub(hi, lo)}
	case Rope:
		return x.ropeSlice(st, fr, s, lo, hi, x.P.pos(t.Pos()))
	case *Term:
		if isBytes(t.X.Type()) {
			return x.ropeSlice(st, fr, x.asRope(st, s), lo, hi, x.P.pos(t.Pos()))
		}
		if cs, ok := constStr(s); ok && lo.isConst() && (hi == nil || hi.isConst()) {
			h := len(cs)
			if hi != nil {
				h = int(hi.ival.Int64())
			}
			return strConst(cs[lo.ival.Int64():h])
		}
		if hi == nil {
			hi = strLen(st, s)
		}
		return UF("substr", SInt, s, lo, hi)
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (x *exec) makeSlice(st *State, fr *Frame, t *ssa.MakeSlice) Val {
	n := x.term(st, fr, t.Len)
	el := t.Type().Underlying().(*types.Slice).Elem()
	if isBytes(t.Type()) {
		if n.isConst() && n.ival.Int64() < 64 {
			return x.newByteBuf(st, int(n.ival.Int64()))
		}
		return x.newSymBuf(st, n)
	}
	if n.isConst() && n.ival.Int64() <= 8 {
		c := newCell("mkslice", types.NewArray(el, n.ival.Int64()))
		st.cells[c] = zeroVal(c.T)
		return &Slice{Elem: el, Arr: c, N: int(n.ival.Int64())}
	}
	id := newRef()
	z := zeroVal(el)
	zl := x.leaves(st, z, el)
	for k, l := range flatten(el) {
		name := "[]" + shortT(el) + l.path
		h := st.hget(name, arrSort(arrSort(l.sort)))
		st.hset(name, Store(h, id, ConstArr(arrSort(l.sort), zl[k])))
	}
	st.assume(Le(I(0), n))
	return &Slice{Elem: el, Id: id, Off: I(0), Len: n}
}

func (x *exec) typeAssert(st *State, fr *Frame, t *ssa.TypeAssert) []outcome {
	v := x.val(st, fr, t.X).(Iface)
	ok1 := func(s *State, val Val, ok *Term) outcome {
		if t.CommaOk {
			return outcome{kind: oReturn, st: s, vals: []Val{Tuple{val, ok}}}
		}
		return outcome{kind: oReturn, st: s, vals: []Val{val}}
	}
	if types.IsInterface(t.AssertedType) {
		if v.Dyn != nil {
			if types.Implements(v.Dyn, t.AssertedType.Underlying().(*types.Interface)) {
				v.T = t.AssertedType
				return []outcome{ok1(st, v, tTrue)}
			}
			if t.CommaOk {
				return []outcome{ok1(st, zeroVal(t.AssertedType), tFalse)}
			}
			return []outcome{}
		}
		v.T = t.AssertedType
		if t.CommaOk {
			b := Fresh("isA", SBool)
			return []outcome{ok1(st, v, b)}
		}
		return []outcome{ok1(st, v, tTrue)}
	}
	if v.Dyn != nil {
		if types.Identical(v.Dyn, t.AssertedType) {
			return []outcome{ok1(st, v.V, tTrue)}
		}
		if t.CommaOk {
			return []outcome{ok1(st, zeroVal(t.AssertedType), tFalse)}
		}
		x.panicHere(st, fr, "type assertion at "+x.P.pos(t.Pos()))
		return []outcome{}
	}
	is := And(Ne(v.Ref, I(0)), Eq(UF("dyn", SInt, v.Ref), typeTag(t.AssertedType)))
	var out []outcome
	if x.feasible(st, is) {
		s2 := st.clone()
		s2.assume(is)
		val := x.unbox(s2, v.Ref, t.AssertedType)
		out = append(out, ok1(s2, val, tTrue))
	}
	if t.CommaOk {
		if x.feasible(st, Not(is)) {
			st.assume(Not(is))
			out = append(out, ok1(st, zeroVal(t.AssertedType), tFalse))
		}
	}
	if out == nil {
		out = []outcome{}
	}
	return out
}

func (x *exec) unbox(st *State, ref *Term, t types.Type) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return Ptr{Ref: ref, T: p.Elem()}
	}
	var ls []*Term
	for k, l := range flatten(t) {
		ls = append(ls, UF(fmt.Sprintf("unbox%d.%s", k, shortT(t)), l.sort, ref))
	}
	v := build(t, ls)
	x.assumeRange(st, t, v)
	return v
}

// ---- calls ----

func (x *exec) ignorableCall(c *ssa.CallCommon) bool {
	n := calleeName(c)
	return strings.Contains(n, "telemetry") || strings.HasSuffix(n, "iterator).Close") || strings.HasSuffix(n, ".Close")
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + named(c.Value.Type()) + ")." + c.Method.Name()
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return fnName(f)
	case *ssa.Builtin:
		return "builtin." + f.Name()
	case *ssa.MakeClosure:
		return fnName(f.Fn.(*ssa.Function))
	}
	return c.Value.String()
}

// fnName: canonical name, e.g. (cosmossdk.io/math.Int).Add or defund/x/dex/amm.Deposit
func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (x *exec) call(st *State, fr *Frame, c *ssa.CallCommon, site ssa.Value) []outcome {
	var args []Val
	if c.IsInvoke() {
		recv := x.val(st, fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(st, fr, a))
		}
		return x.invoke(st, fr, recv, c, args)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(st, fr, f.Name(), args, c)
	case *ssa.Function:
		return x.callStatic(st, f, args, nil, x.P.pos(c.Pos()))
	}
	fv := x.val(st, fr, c.Value)
	ff, ok := fv.(Func)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	return x.callVal(st, ff, args, x.P.pos(c.Pos()))
}

func (x *exec) callVal(st *State, f Func, args []Val, pos string) []outcome {
	if f.Nat != nil {
		return f.Nat(x, st, args)
	}
	fn, ok := f.Fn.(*ssa.Function)
	if !ok {
		panic(unsupported("call of unknown function value"))
	}
	return x.callStatic(st, fn, args, f.Binds, pos)
}

func (x *exec) callStatic(st *State, fn *ssa.Function, args []Val, binds []Val, pos string) []outcome {
	name := fnName(fn)
	if in, ok := intrinsics[name]; ok {
		if x.intrinsics != nil {
			x.intrinsics[name] = true
		}
		return in(x, st, args)
	}
	if con := x.local[name]; con != nil && x.unit != nil && x.unit.con != con {
		return x.applyContract(st, fn, con, args, pos)
	}
	if con := x.P.contracts[name]; con != nil && con.Modular && !x.noModular[name] {
		return x.applyContract(st, fn, con, args, pos)
	}
	if len(fn.Blocks) > 0 && x.P.isSource(fn) {
		if x.inlined != nil {
			x.inlined[name] = true
		}
		if con := x.P.contracts[name]; con != nil && con.Merge {
			return x.mergePure(st, func(s *State) []outcome { return x.callFn(s, fn, args, binds) }, fn.Signature.Results())
		}
		return x.callFn(st, fn, args, binds)
	}
	if o := x.externalCall(st, fn, name, args); o != nil {
		return o
	}
	if len(fn.Blocks) > 0 && strings.HasPrefix(fn.Synthetic, "wrapper") || fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return x.callFn(st, fn, args, binds)
	}
	panic(unsupported("external function " + name + " at " + pos))
}

// mergePure joins outcomes that differ only in path condition and results.
func (x *exec) mergePure(st *State, f func(*State) []outcome, rt *types.Tuple) []outcome {
	base := st.clone()
	n := len(st.pc)
	outs := f(st)
	var rets []outcome
	var rest []outcome
	for _, o := range outs {
		if o.kind == oReturn {
			rets = append(rets, o)
		} else if o.kind != oPanic {
			rest = append(rest, o)
		}
	}
	if len(rets) <= 1 || len(rest) > 0 {
		return outs
	}
	same := func(a, b *State) bool {
		if len(a.hav) != len(b.hav) {
			return false
		}
		for k, v := range a.heap {
			if b.heap[k] != v && (b.heap[k] != nil || !isInit(a, k, v)) {
				return false
			}
		}
		for k, v := range b.heap {
			if a.heap[k] != v && (a.heap[k] != nil || !isInit(a, k, v)) {
				return false
			}
		}
		return true
	}
	for _, o := range rets {
		if !same(base, o.st) {
			return outs
		}
		for c, v := range base.cells {
			if !sameVal(o.st.cells[c], v) {
				return outs
			}
		}
	}
	var conds []*Term
	var lss [][]*Term
	for _, o := range rets {
		conds = append(conds, And(o.st.pc[n:]...))
		var ls []*Term
		for i, v := range o.vals {
			if sl, ok := v.(*Slice); ok && sl.Arr != nil {
				return outs
			}
			ls = append(ls, x.leaves(base, v, rt.At(i).Type())...)
		}
		lss = append(lss, ls)
	}
	base.assume(Or(conds...))
	var merged []*Term
	for j := range lss[0] {
		t := lss[len(lss)-1][j]
		for k := len(lss) - 2; k >= 0; k-- {
			t = Ite(conds[k], lss[k][j], t)
		}
		merged = append(merged, t)
	}
	var vals []Val
	rest2 := merged
	for i := 0; i < rt.Len(); i++ {
		var v Val
		v, rest2 = build1(rt.At(i).Type(), rest2)
		vals = append(vals, v)
	}
	return []outcome{{kind: oReturn, st: base, vals: vals}}
}

func isInit(st *State, k string, v *Term) bool { return v.op == "sym" && v.name == st.initName(k) }

func sameVal(a, b Val) bool {
	switch va := a.(type) {
	case *Term:
		return a == b
	case Num:
		vb, ok := b.(Num)
		return ok && va == vb
	case *Struct:
		vb, ok := b.(*Struct)
		if !ok {
			return false
		}
		if va == vb {
			return true
		}
		if len(va.F) != len(vb.F) {
			return false
		}
		for i := range va.F {
			if !sameVal(va.F[i], vb.F[i]) {
				return false
			}
		}
		return true
	case Ptr:
		vb, ok := b.(Ptr)
		return ok && va.Cell == vb.Cell && va.Ref == vb.Ref && va.Sl == vb.Sl && va.Idx == vb.Idx && fmt.Sprint(va.Path) == fmt.Sprint(vb.Path)
	case Iface:
		vb, ok := b.(Iface)
		if !ok || va.Ref != vb.Ref {
			return false
		}
		if (va.Dyn == nil) != (vb.Dyn == nil) {
			return false
		}
		return va.Dyn == nil || types.Identical(va.Dyn, vb.Dyn) && sameVal(va.V, vb.V)
	case *Slice, *Bag, *MapVal:
		if a == b {
			return true
		}
		if s1, ok := a.(*Slice); ok {
			if s2, ok := b.(*Slice); ok && s1.Arr == nil && s2.Arr == nil {
				return s1.Id == s2.Id && s1.Off == s2.Off && s1.Len == s2.Len
			}
		}
		return false
	case moved:
		vb, ok := b.(moved)
		return ok && va.ref == vb.ref
	case MapRef:
		vb, ok := b.(MapRef)
		return ok && va.Cell == vb.Cell && va.Ref == vb.Ref
	case Opaque:
		vb, ok := b.(Opaque)
		return ok && va.C == vb.C
	case Func:
		vb, ok := b.(Func)
		return ok && va.Fn == vb.Fn && len(va.Binds) == 0 && len(vb.Binds) == 0
	}
	return false
}

// invoke dispatches an interface method call.
func (x *exec) invoke(st *State, fr *Frame, recv Val, c *ssa.CallCommon, args []Val) []outcome {
	iname := named(c.Value.Type())
	mname := "(" + iname + ")." + c.Method.Name()
	rv, ok := recv.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
	}
	if rv.Dyn != nil {
		fn := x.P.method(rv.Dyn, c.Method)
		if fn == nil {
			panic(unsupported("no method " + mname))
		}
		return x.callStatic(st, fn, append([]Val{rv.V}, args...), nil, x.P.pos(c.Pos()))
	}
	if x.abstract != "" && strings.HasSuffix(iname, "/"+x.abstract) {
		x.useExt("the methods of an unknown " + x.abstract + " are functions of the value and the arguments while it is queried, and do not panic")
		x.safe(st, fr, Ne(rv.Ref, I(0)), "nil interface call at "+x.P.pos(c.Pos()))
		st.assume(Ne(rv.Ref, I(0)))
		return ret(st, x.abstractCall(st, c.Method, rv.Ref, args)...)
	}
	if in, ok := intrinsics[mname]; ok {
		if x.intrinsics != nil {
			x.intrinsics[mname] = true
		}
		return in(x, st, append([]Val{recv}, args...))
	}
	x.safe(st, fr, Ne(rv.Ref, I(0)), "nil interface call at "+x.P.pos(c.Pos()))
	st.assume(Ne(rv.Ref, I(0)))
	if iname == "error" && c.Method.Name() == "Error" {
		return ret(st, UF("error.text", SInt, rv.Ref))
	}
	impls := x.P.impls(c.Value.Type())
	if len(impls) == 0 {
		panic(unsupported("invoke " + mname))
	}
	// group implementations by the method they resolve to on the shared base
	if fn := x.P.sharedBase(impls, c.Method); fn != nil {
		pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		x.useExt("dispatch of " + mname + " through the shared embedded base object")
		return x.callStatic(st, fn, append([]Val{Ptr{Ref: rv.Ref, T: pt}}, args...), nil, x.P.pos(c.Pos()))
	}
	var out []outcome
	for _, t := range impls {
		is := Eq(UF("dyn", SInt, rv.Ref), typeTag(t))
		if !x.feasible(st, is) {
			continue
		}
		s2 := st.clone()
		s2.assume(is)
		fn := x.P.method(t, c.Method)
		out = append(out, x.callStatic(s2, fn, append([]Val{x.unbox(s2, rv.Ref, t)}, args...), nil, x.P.pos(c.Pos()))...)
	}
	x.useExt("closed world for interface " + iname)
	if out == nil {
		out = []outcome{}
	}
	return out
}

// abstractCall is the result of a method of an unknown implementation: a function of the
// value and the arguments.
func (x *exec) abstractCall(st *State, m *types.Func, ref *Term, args []Val) []Val {
	sig := m.Type().(*types.Signature)
	ls := []*Term{ref}
	for i, a := range args {
		ls = append(ls, x.leaves(st, a, sig.Params().At(i).Type())...)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var rs []*Term
		for _, l := range flatten(t) {
			rs = append(rs, UF(fmt.Sprintf("meth.%s.%d%s", m.Name(), i, l.path), l.sort, ls...))
		}
		out = append(out, build(t, rs))
	}
	return out
}

func ret(st *State, vs ...Val) []outcome { return []outcome{{kind: oReturn, st: st, vals: vs}} }

func (x *exec) builtin(st *State, fr *Frame, name string, args []Val, c *ssa.CallCommon) []outcome {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *Slice:
			return ret(st, x.lenOf(v))
		case *Bag:
			return ret(st, x.bagLen(st, v))
		case *Term:
			if isBytes(c.Args[0].Type()) {
				return ret(st, x.asRope(st, v).length())
			}
			return ret(st, strLen(st, v))
		case Rope:
			return ret(st, v.length())
		case MapRef:
			mv := x.mapVal(st, v)
			if mv == nil {
				return ret(st, I(0))
			}
			st.assume(Ge(mv.Size, I(0)))
			return ret(st, mv.Size)
		case Ptr:
			if a, ok := v.T.Underlying().(*types.Array); ok {
				return ret(st, I(a.Len()))
			}
		case *Struct:
			return ret(st, I(int64(len(v.F))))
		}
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			n := Fresh("cap", SInt)
			st.assume(Ge(n, x.lenOf(s)))
			return ret(st, n)
		}
	case "append":
		return ret(st, x.appendOp(st, args[0], args[1], c))
	case "copy":
		return x.copyOp(st, args)
	case "delete":
		x.mapDelete(st, args[0], args[1])
		return ret(st)
	case "print", "println":
		return ret(st)
	case "min", "max":
		a, ok1 := args[0].(*Term)
		b, ok2 := args[1].(*Term)
		if ok1 && ok2 && len(args) == 2 {
			if name == "min" {
				return ret(st, Ite(Le(a, b), a, b))
			}
			return ret(st, Ite(Le(a, b), b, a))
		}
	case "recover":
		pv := I(0)
		if n := len(x.recovering); n > 0 {
			pv = x.recovering[n-1]
		}
		return ret(st, Iface{Ref: pv, T: types.NewInterfaceType(nil, nil)})
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	}
	panic(unsupported("builtin " + name))
}

func (x *exec) appendOp(st *State, a, b Val, c *ssa.CallCommon) Val {
	if isBytes(c.Args[0].Type()) {
		ra, rb := x.asRope(st, a), x.asRope(st, b)
		return Rope{append(append([]Seg{}, ra.S...), rb.S...)}.norm()
	}
	if ba, ok := a.(*Bag); ok {
		var sl *Bag
		switch vb := b.(type) {
		case *Slice:
			sl = x.bagOfSlice(st, vb)
		case *Bag:
			sl = vb
		}
		if ba.Known && sl.Known {
			return x.bagOf(append(append([]Val{}, ba.Elems...), sl.Elems...))
		}
		panic(unsupported("append to symbolic coins"))
	}
	s, ok := a.(*Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("append to %T", a)))
	}
	t, ok := b.(*Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("append of %T", b)))
	}
	// both concrete: fresh concrete array (append is modelled as copying)
	if (s.Arr != nil || s.NilV) && (t.Arr != nil || t.NilV) && s.N+t.N <= 12 {
		el := s.Elem
		cell := newCell("append", types.NewArray(el, int64(s.N+t.N)))
		arr := &Struct{T: cell.T}
		for _, p := range []*Slice{s, t} {
			for i := 0; i < p.N; i++ {
				arr.F = append(arr.F, x.load(st, x.elemPtr(st, p, I(int64(i)))))
			}
		}
		st.cells[cell] = arr
		return &Slice{Elem: el, Arr: cell, N: s.N + t.N}
	}
	n := x.lenOf(s)
	el := s.Elem
	id := newRef()
	if t.Arr != nil || t.NilV {
		rs := x.reifySlice(st, s)
		// values first (may reify)
		var lv [][]*Term
		for i := 0; i < t.N; i++ {
			lv = append(lv, x.leaves(st, x.load(st, x.elemPtr(st, t, I(int64(i)))), el))
		}
		for k, l := range flatten(el) {
			name := "[]" + shortT(el) + l.path
			h := st.hget(name, arrSort(arrSort(l.sort)))
			inner := Select(h, rs.Id)
			for i := range lv {
				inner = Store(inner, Add(rs.Off, n, I(int64(i))), lv[i][k])
			}
			st.hset(name, Store(h, id, inner))
		}
		return &Slice{Elem: el, Id: id, Off: rs.Off, Len: Add(n, I(int64(t.N)))}
	}
	// symbolic suffix: new contents defined pointwise
	rs := x.reifySlice(st, s)
	rt := x.reifySlice(st, t)
	for _, l := range flatten(el) {
		name := "[]" + shortT(el) + l.path
		h := st.hget(name, arrSort(arrSort(l.sort)))
		inner := Fresh("app"+l.path, arrSort(l.sort))
		i := Bound("ai")
		sel := mk("select", "", nil, l.sort, inner, i)
		a0 := mk("select", "", nil, l.sort, Select(h, rs.Id), Add(rs.Off, i))
		b0 := mk("select", "", nil, l.sort, Select(h, rt.Id), Add(rt.Off, Sub(i, n)))
		st.assume(Forall([]*Term{i}, And(
			Imp(And(Le(I(0), i), Lt(i, n)), Eq(sel, a0)),
			Imp(And(Le(n, i), Lt(i, Add(n, rt.Len))), Eq(sel, b0))), []*Term{sel}))
		st.hset(name, Store(h, id, inner))
	}
	return &Slice{Elem: el, Id: id, Off: I(0), Len: Add(n, rt.Len)}
}

func (x *exec) copyOp(st *State, args []Val) []outcome {
	d, ok1 := args[0].(*Slice)
	s, ok2 := args[1].(*Slice)
	if !ok1 || !ok2 {
		panic(unsupported("copy"))
	}
	n := Ite(Le(x.lenOf(s), x.lenOf(d)), x.lenOf(s), x.lenOf(d))
	rs, rd := x.reifySlice(st, s), x.reifySlice(st, d)
	el := d.Elem
	for _, l := range flatten(el) {
		name := "[]" + shortT(el) + l.path
		h := st.hget(name, arrSort(arrSort(l.sort)))
		inner := Fresh("cpy"+l.path, arrSort(l.sort))
		i := Bound("ci")
		sel := mk("select", "", nil, l.sort, inner, i)
		src := mk("select", "", nil, l.sort, Select(h, rs.Id), Add(rs.Off, Sub(i, rd.Off)))
		old := mk("select", "", nil, l.sort, Select(h, rd.Id), i)
		in := And(Le(rd.Off, i), Lt(i, Add(rd.Off, n)))
		st.assume(Forall([]*Term{i}, And(Imp(in, Eq(sel, src)), Imp(Not(in), Eq(sel, old))), []*Term{sel}))
		st.hset(name, Store(h, rd.Id, inner))
	}
	return ret(st, n)
}

// ---- maps ----

func (x *exec) keyTerm(st *State, k Val, t types.Type) *Term {
	ls := x.leaves(st, k, t)
	if len(ls) == 1 {
		return ls[0]
	}
	kk := UF("key."+shortT(t), SInt, ls...)
	for i, l := range ls {
		addFact(kk, Eq(UF(fmt.Sprintf("unkey%d.%s", i, shortT(t)), l.sort, kk), l))
	}
	return kk
}

func (x *exec) mapOf(st *State, v Val) (*MapVal, MapRef) {
	m, ok := v.(MapRef)
	if !ok {
		panic(unsupported(fmt.Sprintf("map %T", v)))
	}
	return x.mapVal(st, m), m
}

func (x *exec) mapUpdate(st *State, m, k, v Val) {
	mv, c := x.mapOf(st, m)
	if mv == nil {
		st.assume(tFalse)
		return
	}
	kt := x.keyTerm(st, k, mv.T.Key())
	ls := x.leaves(st, v, mv.T.Elem())
	n := &MapVal{T: mv.T, Sum: mv.Sum, Size: mv.Size}
	had := Select(mv.Dom, kt)
	n.Dom = Store(mv.Dom, kt, tTrue)
	for i := range mv.L {
		n.L = append(n.L, Store(mv.L[i], kt, ls[i]))
	}
	if isNum(mv.T.Elem()) {
		n.Sum = Add(mv.Sum, ls[1], Neg(Ite(had, Select(mv.L[1], kt), I(0))))
	}
	n.Size = Ite(had, mv.Size, Add(mv.Size, I(1)))
	x.mapPut(st, c, n)
}

func (x *exec) mapDelete(st *State, m, k Val) {
	mv, c := x.mapOf(st, m)
	if mv == nil {
		return
	}
	kt := x.keyTerm(st, k, mv.T.Key())
	n := &MapVal{T: mv.T, L: mv.L, Sum: mv.Sum}
	had := Select(mv.Dom, kt)
	n.Dom = Store(mv.Dom, kt, tFalse)
	if isNum(mv.T.Elem()) {
		n.Sum = Sub(mv.Sum, Ite(had, Select(mv.L[1], kt), I(0)))
	}
	n.Size = Ite(had, Sub(mv.Size, I(1)), mv.Size)
	x.mapPut(st, c, n)
}

func (x *exec) mapGet(st *State, mv *MapVal, kt *Term) Val {
	var ls []*Term
	for i := range mv.L {
		ls = append(ls, Select(mv.L[i], kt))
	}
	oldRefs(mv.T.Elem(), ls)
	return build(mv.T.Elem(), ls)
}

func (x *exec) lookup(st *State, fr *Frame, t *ssa.Lookup) Val {
	m := x.val(st, fr, t.X)
	if s, ok := m.(*Term); ok { // string index
		i := x.term(st, fr, t.Index)
		r := UF("strAt", SInt, s, i)
		st.assume(And(Le(I(0), r), Le(r, I(255))))
		return r
	}
	mr, ok := m.(MapRef)
	if !ok {
		panic(unsupported(fmt.Sprintf("lookup in %T", m)))
	}
	et := mr.T.Elem()
	mv := x.mapVal(st, mr)
	if mv == nil {
		if t.CommaOk {
			return Tuple{zeroVal(et), tFalse}
		}
		return zeroVal(et)
	}
	kt := x.keyTerm(st, x.val(st, fr, t.Index), mv.T.Key())
	had := Select(mv.Dom, kt)
	var v Val
	if had.op == "false" {
		v = zeroVal(et)
	} else {
		var ls []*Term
		zl := x.leaves(st, zeroVal(et), et)
		if len(mv.L) == 1 {
			oldRefs(et, []*Term{Select(mv.L[0], kt)})
		}
		for i := range mv.L {
			ls = append(ls, Ite(had, Select(mv.L[i], kt), zl[i]))
		}
		v = build(et, ls)
		x.assumeRange(st, et, v)
	}
	if t.CommaOk {
		return Tuple{v, had}
	}
	return v
}

// Range over a map: the iterator tracks the set of remaining keys.
func (x *exec) newRange(st *State, m MapRef) Val {
	c := newCell("mapiter", nil)
	if old := x.mapVal(st, m); old == nil {
		st.cells[c] = &MapVal{T: m.T, Dom: ConstArr(arrSort(SBool), tFalse), Sum: I(0), Size: I(0)}
	} else {
		mv := *old
		st.cells[c] = &mv
	}
	return &rangeIter{m: &m, cell: c}
}

func (x *exec) execNext(st *State, fr *Frame, b *ssa.BasicBlock, i int, v *ssa.Next) []outcome {
	it, ok := x.val(st, fr, v.Iter).(*rangeIter)
	if !ok {
		panic(unsupported("range over string"))
	}
	mv := st.cells[it.cell].(*MapVal)
	kt := mv.T.Key()
	var out []outcome
	// exhausted
	s2, f2 := st.clone(), fr.clone()
	done := And(Eq(mv.Dom, ConstArr(arrSort(SBool), tFalse)), Eq(mv.Size, I(0)), Eq(mv.Sum, I(0)))
	if x.feasible(s2, done) {
		s2.assume(done)
		f2.env[v] = Tuple{tFalse, zeroVal(kt), zeroVal(mv.T.Elem())}
		out = append(out, x.instrs(s2, f2, b, i+1)...)
	}
	// one more
	kv := x.freshVal(st, kt, "mapkey")
	key := x.keyTerm(st, kv, kt)
	has := Select(mv.Dom, key)
	if x.feasible(st, has) {
		st.assume(has)
		if cur := x.mapVal(st, *it.m); cur != nil { // a key produced by range is in the map
			st.assume(Select(cur.Dom, key))
		}
		val := x.mapGet(st, mv, key)
		x.assumeRange(st, mv.T.Elem(), val)
		n := &MapVal{T: mv.T, L: mv.L, Dom: Store(mv.Dom, key, tFalse), Size: Sub(mv.Size, I(1)), Sum: mv.Sum}
		if isNum(mv.T.Elem()) {
			n.Sum = Sub(mv.Sum, val.(Num).V)
		}
		st.setCell(it.cell, n)
		fr.env[v] = Tuple{tTrue, kv, val}
		out = append(out, x.instrs(st, fr, b, i+1)...)
	}
	return out
}

// ---- debugging ----

var dbgOn = os.Getenv("GOVC_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if dbgOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortInts(a []int) []int { sort.Ints(a); return a }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
