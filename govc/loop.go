package main

// Loops: the modified locations are discovered, an inductive invariant is
// inferred over them (Houdini over templates, linear conservation laws from the
// null space of the per-iteration deltas, and invariants given in contracts),
// and the loop is replaced by one arbitrary iteration.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loopInfo struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	index int // ordinal within the function
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				// natural loop body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[c] {
						continue
					}
					l.body[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	var heads []*ssa.BasicBlock
	for h := range m {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
	for i, h := range heads {
		m[h].index = i
	}
	return m
}

// loc is a modified location.
type loc struct {
	name  string
	sort  Sort
	typ   types.Type
	num   bool // value of a math.Int / LegacyDec / integer
	get   func(st *State, phis []Val) *Term
	entry *Term
	phi   bool
	nilOf bool
	heap  bool
}

type cand struct {
	name string
	f    func(st *State, phis []Val) *Term
}

type iterLoop struct {
	x        *exec
	name     string
	phiTypes []types.Type
	phiNames []string
	phiLow   map[int]*Term // lower bounds of counters
	run      func(st *State, phis []Val, stop bool) (backs []outcome, exits []outcome)
	extra    func(entry *State, entryPhis []Val, locs []*loc) []cand
	live     []Val // live values whose heap contents are worth framing
}

type loopCacheE struct{ n int }

func (x *exec) runLoop(st *State, fr *Frame, l *loopInfo, phis []Val) []outcome {
	b := l.head
	il := &iterLoop{x: x, name: fmt.Sprintf("%s loop %d", fnName(fr.fn), l.index)}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		il.phiTypes = append(il.phiTypes, p.Type())
		il.phiNames = append(il.phiNames, p.Comment)
		if lo, ok := counter(p); ok {
			if il.phiLow == nil {
				il.phiLow = map[int]*Term{}
			}
			il.phiLow[len(il.phiNames)-1] = I(lo)
		}
	}
	var keys []ssa.Value
	for k := range fr.env {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].Pos() != keys[j].Pos() {
			return keys[i].Pos() < keys[j].Pos()
		}
		return keys[i].Name() < keys[j].Name()
	})
	for _, k := range keys {
		il.live = append(il.live, fr.env[k])
	}
	il.run = func(s *State, ph []Val, stop bool) (backs, exits []outcome) {
		f2 := fr.clone()
		x.setPhis(f2, b, ph)
		f2.gen = append(f2.gen, &genLoop{l: l, stopEx: stop})
		depth := len(x.stack)
		for _, o := range x.instrs(s, f2, b, x.firstNonPhi(b)) {
			switch o.kind {
			case oBack:
				backs = append(backs, o)
			case oStop:
			default:
				exits = append(exits, o)
			}
		}
		if len(x.stack) != depth {
			panic("stack imbalance")
		}
		return
	}
	// bounds compared inside the loop with loop-invariant values
	bounds := map[string]bool{}
	var bnd []ssa.Value
	var blocks []*ssa.BasicBlock
	for bb := range l.body {
		blocks = append(blocks, bb)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, bb := range blocks {
		for _, in := range bb.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if _, isC := o.(*ssa.Const); isC || fr.env[o] != nil || headLoad(o, fr, 0) {
							if !bounds[o.Name()] {
								bounds[o.Name()] = true
								bnd = append(bnd, o)
							}
						}
					}
				}
			}
		}
	}
	var lenPtrs []ssa.Value // slices whose len is taken in the loop
	for _, bb := range blocks {
		for _, in := range bb.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if fr.env[c.Call.Args[0]] != nil {
						lenPtrs = append(lenPtrs, c.Call.Args[0])
					}
				}
			}
		}
	}
	con := x.P.contracts[fnName(fr.fn)]
	_ = con
	il.extra = func(entry *State, ephis []Val, locs []*loc) []cand {
		var cs []cand
		var bts []*Term
		for _, v := range bnd {
			func() {
				defer func() { recover() }()
				if _, isC := v.(*ssa.Const); !isC && fr.env[v] == nil {
					s2, f2 := entry.clone(), fr.clone()
					s2.log = nil
					if t, ok := x.evalLoad(s2, f2, v).(*Term); ok && t.sort == SInt {
						bts = append(bts, t)
					}
					return
				}
				if t, ok := x.val(entry, fr, v).(*Term); ok && t.sort == SInt {
					bts = append(bts, t)
				}
			}()
		}
		for _, v := range lenPtrs {
			if s, ok := fr.env[v].(*Slice); ok {
				bts = append(bts, x.lenOf(s))
			}
		}
		for _, lc := range locs {
			lc := lc
			if !lc.phi || lc.sort != SInt || !lc.num || isNum(lc.typ) {
				continue
			}
			for _, bt := range bts {
				bt := bt
				cs = append(cs,
					cand{lc.name + " < " + bt.String(), func(s *State, p []Val) *Term { return Lt(lc.get(s, p), bt) }},
					cand{lc.name + " <= " + bt.String(), func(s *State, p []Val) *Term { return Le(lc.get(s, p), bt) }},
					cand{lc.name + " >= " + bt.String(), func(s *State, p []Val) *Term { return Ge(lc.get(s, p), bt) }},
					cand{lc.name + " > " + bt.String(), func(s *State, p []Val) *Term { return Gt(lc.get(s, p), bt) }},
					cand{lc.name + " <= max(entry, " + bt.String() + ")", func(s *State, p []Val) *Term { return Or(Le(lc.get(s, p), bt), Eq(lc.get(s, p), lc.entry)) }},
				)
			}
		}
		var invs []invX
		if looseInv {
			// every invariant written for the unit is a candidate for every loop:
			// an invariant that does not hold is dropped, one that holds is sound
			for _, c := range []*Contract{con, x.unit.con} {
				if c == nil || c == con && c == x.unit.con && len(invs) > 0 {
					continue
				}
				var ns []int
				for n := range c.LoopInv {
					ns = append(ns, n)
				}
				sort.Ints(ns)
				for _, n := range ns {
					invs = append(invs, c.LoopInv[n]...)
				}
				for _, f := range sortedFns(c.loopIn) {
					for _, n := range sortedInts(c.loopIn[f]) {
						invs = append(invs, c.loopIn[f][n]...)
					}
				}
			}
		} else {
			invs = x.invsOf(fr.fn, l.index)
		}
		if len(invs) > 0 {
			for _, inv := range invs {
				inv := inv
				cs = append(cs, cand{"spec: " + inv.text, func(s *State, p []Val) *Term {
					f2 := fr.clone()
					x.setPhis(f2, b, p)
					return x.evalInv(inv, s, f2, b, entry, fr, ephis)
				}})
			}
		}
		return cs
	}
	head, exits := il.solve(st, phis)
	_ = head
	return exits
}

// scalarLocs enumerates the leaves of a value.
func (x *exec) cellLeaves(st *State, c *Cell, v Val) []*Term {
	if m, ok := v.(*MapVal); ok {
		out := []*Term{m.Dom}
		out = append(out, m.L...)
		return append(out, m.Sum, m.Size)
	}
	return x.leaves(st, v, c.T)
}

type wset struct {
	phi  map[int]bool
	cell map[*Cell]bool
	heap map[string]bool
	mapc map[*Cell]map[int]bool
	hav  map[string]bool
}

func (il *iterLoop) solve(entry *State, ephis []Val) (*State, []outcome) {
	x := il.x
	w := &wset{map[int]bool{}, map[*Cell]bool{}, map[string]bool{}, map[*Cell]map[int]bool{}, map[string]bool{}}
	var cands []cand
	haveC := false
	wasRec := x.recording
	x.recording = true
	var headSt *State
	var headPh []Val
	var locs []*loc

	mkHead := func() (*State, []Val) {
		s := entry.clone()
		ph := append([]Val{}, ephis...)
		// reify everything that will be havoced, so that entry values have leaves
		for i := range il.phiTypes {
			if w.phi[i] {
				var ls []*Term
				for _, lf := range flatten(il.phiTypes[i]) {
					ls = append(ls, Fresh("phi_"+il.phiNames[i]+lf.path, lf.sort))
				}
				ph[i] = build(il.phiTypes[i], ls)
				x.assumeRange(s, il.phiTypes[i], ph[i])
				if t, ok := ph[i].(*Term); ok && il.phiLow[i] != nil {
					s.assume(Ge(t, il.phiLow[i])) // the counter of a range loop starts at -1 and only grows
				}
				// what exists at the loop head differs from what an iteration allocates
				if sl, ok := ph[i].(*Slice); ok && sl.Id != nil {
					s.assume(Ge(sl.Id, I(-allocN)))
				}
			}
		}
		var cs []*Cell
		for c := range w.cell {
			cs = append(cs, c)
		}
		for c := range w.mapc {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			if comps, ok := w.mapc[c]; ok {
				old := s.cells[c].(*MapVal)
				n := &MapVal{T: old.T, Dom: old.Dom, L: append([]*Term{}, old.L...), Sum: old.Sum, Size: old.Size}
				if comps[0] {
					n.Dom = Fresh("mapdom", arrSort(SBool))
				}
				for k := range n.L {
					if comps[1+k] {
						n.L[k] = Fresh("mapval", n.L[k].sort)
						if fl := flatten(n.T.Elem()); ptrPaths(n.T.Elem())[fl[k].path] {
							r := Bound("hr")
							a := mk("select", "", nil, SInt, n.L[k], r)
							s.assume(Forall([]*Term{r}, Ge(a, I(-allocN)), []*Term{a}))
						}
					}
				}
				if comps[1+len(n.L)] {
					n.Sum = Fresh("mapsum", SInt)
				}
				if comps[2+len(n.L)] {
					n.Size = Fresh("mapsize", SInt)
					s.assume(Ge(n.Size, I(0)))
				}
				s.cells[c] = n
				continue
			}
			if _, isMoved := s.cells[c].(moved); isMoved {
				continue
			}
			s.cells[c] = x.freshVal(s, c.T, "cell_"+c.name)
		}
		for _, p := range sortedBool(w.hav) {
			s.havoc(p)
		}
		for _, h := range sortedBool(w.heap) {
			old := x.heapCur(entry, h)
			s.heap[h] = Fresh("heap_"+h, old.sort)
			if ptrHeaps[h] {
				// so do the pointers the heap holds there
				r, i := Bound("hr"), Bound("hi")
				a := mk("select", "", nil, s.heap[h].sort.elem(), s.heap[h], r)
				if a.sort != SInt {
					b := mk("select", "", nil, SInt, a, i)
					s.assume(Forall([]*Term{r, i}, Ge(b, I(-allocN)), []*Term{b}))
				} else {
					s.assume(Forall([]*Term{r}, Ge(a, I(-allocN)), []*Term{a}))
				}
			}
		}
		return s, ph
	}

	mkLocs := func() []*loc {
		var out []*loc
		for i := range il.phiTypes {
			if !w.phi[i] {
				continue
			}
			i := i
			fl := flatten(il.phiTypes[i])
			for k, lf := range fl {
				k := k
				nm := il.phiNames[i]
				if nm == "" {
					nm = fmt.Sprintf("phi%d", i)
				}
				out = append(out, &loc{name: nm + lf.path, sort: lf.sort, typ: il.phiTypes[i], phi: true,
					num: numLeaf(il.phiTypes[i], lf), nilOf: lf.path == "#nil",
					get: func(s *State, p []Val) *Term { return x.leaves(s, p[i], il.phiTypes[i])[k] }})
			}
		}
		var cs []*Cell
		for c := range w.cell {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			c := c
			if _, isMoved := entry.cells[c].(moved); isMoved {
				continue
			}
			for k, lf := range flatten(c.T) {
				k := k
				out = append(out, &loc{name: c.name + lf.path, sort: lf.sort, typ: c.T, num: numLeaf2(c.T, lf), nilOf: hasSuffix(lf.path, "#nil"),
					get: func(s *State, p []Val) *Term {
						v := s.cells[c]
						if _, m := v.(moved); m {
							panic(unsupported("cell moved in loop"))
						}
						return x.leaves(s, v, c.T)[k]
					}})
			}
		}
		var mcs []*Cell
		for c := range w.mapc {
			mcs = append(mcs, c)
		}
		sort.Slice(mcs, func(i, j int) bool { return mcs[i].id < mcs[j].id })
		for _, c := range mcs {
			c := c
			out = append(out, &loc{name: c.name + "#sum", sort: SInt, num: true,
				get: func(s *State, p []Val) *Term { return s.cells[c].(*MapVal).Sum }})
			out = append(out, &loc{name: c.name + "#size", sort: SInt, num: true,
				get: func(s *State, p []Val) *Term { return s.cells[c].(*MapVal).Size }})
		}
		for _, h := range sortedBool(w.heap) {
			h := h
			srt := x.heapCur(entry, h).sort
			out = append(out, &loc{name: h, sort: srt, num: srt == SInt, heap: true,
				get: func(s *State, p []Val) *Term { return s.hget(h, srt) }})
		}
		for _, lc := range out {
			lc.entry = lc.get(entry, ephis)
		}
		return out
	}

	var backs []outcome
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsupported("loop analysis does not converge: " + il.name))
		}
		headSt, headPh = mkHead()
		h0, p0 := headSt.clone(), append([]Val{}, headPh...)
		if haveC {
			for _, c := range cands {
				if t := safeCand(c, headSt, headPh); t != nil {
					headSt.assume(t)
				}
			}
			h0 = headSt.clone()
		}
		backs, _ = il.run(headSt.clone(), append([]Val{}, headPh...), true)
		// new modifications?
		grew := false
		for _, o := range backs {
			for i := range il.phiTypes {
				if !w.phi[i] && !sameVal(p0[i], o.vals[i]) {
					w.phi[i] = true
					grew = true
				}
			}
			for c, v := range h0.cells {
				if w.cell[c] {
					continue
				}
				if strings.HasPrefix(c.name, "global:") && !x.P.gmut[c] {
					continue // a package variable nothing assigns: at most its representation changed
				}
				nv := o.st.cells[c]
				if m1, ok := v.(*MapVal); ok {
					m2, ok := nv.(*MapVal)
					if !ok { // escapes in the body: move it at entry
						x.reifyMap(entry, MapRef{Cell: c, T: m1.T})
						grew = true
						continue
					}
					l1, l2 := x.cellLeaves(nil, c, m1), x.cellLeaves(nil, c, m2)
					for k := range l1 {
						if l1[k] != l2[k] && !w.mapc[c][k] {
							if w.mapc[c] == nil {
								w.mapc[c] = map[int]bool{}
							}
							w.mapc[c][k] = true
							grew = true
						}
					}
					continue
				}
				if m, ok := nv.(moved); ok {
					if _, was := v.(moved); !was {
						// escapes in the body: move it at entry
						_ = m
						x.reifyPtr(entry, Ptr{Cell: c, T: c.T})
						grew = true
					}
					continue
				}
				if !sameVal(v, nv) {
					w.cell[c] = true
					grew = true
				}
			}
			for _, e := range o.st.hav[len(h0.hav):] {
				if !w.hav[e.prefix] {
					w.hav[e.prefix] = true
					grew = true
				}
			}
			for _, h := range sortedKeys(o.st.heap) {
				if w.heap[h] {
					continue
				}
				v := o.st.heap[h]
				if hv, ok := h0.heap[h]; ok {
					if hv != v {
						w.heap[h] = true
						grew = true
					}
				} else if !isInit(h0, h, v) {
					w.heap[h] = true
					grew = true
				}
			}
		}
		if grew {
			haveC = false
			// reify entry values of locations that become symbolic
			for i := range il.phiTypes {
				if w.phi[i] {
					x.leaves(entry, ephis[i], il.phiTypes[i])
				}
			}
			for c := range w.cell {
				if _, m := entry.cells[c].(moved); !m {
					x.leaves(entry, entry.cells[c], c.T)
				}
			}
			continue
		}
		if !grew {
			dbg("  %s: changes %v", il.name, sortedBool(w.heap))
		}
		if !haveC {
			locs = mkLocs()
			cands = il.candidates(entry, ephis, locs, headSt, headPh, backs)
			// entry check
			var keep []cand
			for _, c := range cands {
				t := safeCand(c, entry, ephis)
				if t == nil || t.op == "false" {
					if strings.HasPrefix(c.name, "spec:") {
						dbg("  %s: not evaluated %s", il.name, c.name)
					}
					continue
				}
				if x.entailsC(entry, t, c) {
					keep = append(keep, c)
				} else if strings.HasPrefix(c.name, "spec:") {
					dbg("  %s: entry drop %s", il.name, c.name)
				}
			}
			cands = keep
			haveC = true
			continue
		}
		// inductiveness
		var keep []cand
		dropped := false
		// the inferred candidates first: every dropped one weakens the head state,
		// so the expensive ones are only worth checking once those are stable
		for pass := 0; pass < 2; pass++ {
			if pass == 1 && dropped {
				for _, c := range cands {
					if strings.HasPrefix(c.name, "spec:") {
						keep = append(keep, c)
					}
				}
				break
			}
			for _, c := range cands {
				if strings.HasPrefix(c.name, "spec:") != (pass == 1) {
					continue
				}
				ok := true
				for _, o := range backs {
					t := safeCand(c, o.st, o.vals)
					if t == nil || !x.entailsC(o.st, t, c) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				} else {
					dropped = true
					dbg("  %s: drop %s", il.name, c.name)
				}
			}
		}
		cands = keep
		if !dropped {
			break
		}
	}
	for _, c := range cands {
		dbg("  %s: invariant %s", il.name, c.name)
	}
	x.recording = wasRec
	if x.unit != nil && !x.recording {
		var ns []string
		for _, c := range cands {
			ns = append(ns, c.name)
		}
		x.unit.invs[il.name] = ns
	}
	// final pass from the invariant
	headSt, headPh = mkHead()
	for _, c := range cands {
		if t := safeCand(c, headSt, headPh); t != nil {
			headSt.assume(t)
		}
	}
	after := headSt.clone()
	_, exits := il.run(headSt, headPh, false)
	return after, exits
}

func safeCand(c cand, s *State, p []Val) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if strings.HasPrefix(c.name, "spec:") {
					dbg("  %s: %v", c.name, u)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(s, p)
}

func (x *exec) heapCur(st *State, h string) *Term {
	if t, ok := st.heap[h]; ok {
		return t
	}
	return st.hget(h, heapSort(h))
}

// heapSorts remembers the sort of each heap array.
var heapSorts = map[string]Sort{}

func heapSort(h string) Sort {
	if s, ok := heapSorts[h]; ok {
		return s
	}
	t, ok := terms["sym|H0:"+h+"||"]
	if ok {
		return t.sort
	}
	panic(unsupported("sort of heap " + h))
}

func sortedBool(m map[string]bool) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

func numLeaf(t types.Type, l Leaf) bool {
	if isNum(t) {
		return l.path == "#v"
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsInteger != 0
	}
	return hasSuffix(l.path, "#len") || hasSuffix(l.path, "#v")
}

func numLeaf2(t types.Type, l Leaf) bool { return numLeaf(t, l) }

func (il *iterLoop) candidates(entry *State, ephis []Val, locs []*loc, head *State, hph []Val, backs []outcome) []cand {
	x := il.x
	var cs []cand
	add := func(n string, f func(s *State, p []Val) *Term) { cs = append(cs, cand{n, f}) }
	var nums []*loc
	for _, l := range locs {
		l := l
		switch {
		case l.sort == SBool:
			add(l.name+" == entry", func(s *State, p []Val) *Term { return Eq(l.get(s, p), l.entry) })
			if l.nilOf {
				add("!"+l.name, func(s *State, p []Val) *Term { return Not(l.get(s, p)) })
			}
		case l.sort == SInt && l.num:
			nums = append(nums, l)
			add(l.name+" >= 0", func(s *State, p []Val) *Term { return Ge(l.get(s, p), I(0)) })
			if !(l.entry.isConst() && l.entry.ival.Sign() == 0) {
				add(l.name+" >= entry", func(s *State, p []Val) *Term { return Ge(l.get(s, p), l.entry) })
			}
			add(l.name+" <= entry", func(s *State, p []Val) *Term { return Le(l.get(s, p), l.entry) })
		case l.sort == SInt:
			add(l.name+" == entry", func(s *State, p []Val) *Term { return Eq(l.get(s, p), l.entry) })
		case l.sort.isArr():
			// frame: objects that existed before the function keep their contents
			if l.name[0] == '[' || strings.HasPrefix(l.name, "math.") || strings.HasPrefix(l.name, "map:") {
				freshN++
				q := Bound(fmt.Sprintf("q%d", freshN))
				add(l.name+" unchanged for older slices", func(s *State, p []Val) *Term {
					a := Select(l.get(s, p), q)
					if a == Select(l.entry, q) {
						return tTrue
					}
					return Forall([]*Term{q}, Imp(Ge(q, I(0)), Eq(a, Select(l.entry, q))), []*Term{a})
				})
			}
			if !l.heap {
				break
			}
			// frame: live objects keep their contents
			seen := map[*Term]bool{}
			for _, v := range il.live {
				var id *Term
				switch vv := v.(type) {
				case *Slice:
					if vv.Arr == nil && !vv.NilV {
						id = vv.Id
					}
				case Ptr:
					if !strings.HasPrefix(l.name, shortT(vv.T)) {
						continue
					}
					if vv.Ref != nil && len(vv.Path) == 0 {
						id = vv.Ref
					} else if vv.Cell != nil {
						if m, ok := entry.cells[vv.Cell].(moved); ok {
							id = m.ref
						}
					}
				case Iface:
					if vv.Dyn == nil && oursT(vv.T) {
						id = vv.Ref
					}
				}
				if id == nil || seen[id] || id.isConst() && id.ival.Sign() == 0 {
					continue
				}
				seen[id] = true
				isSl := l.name[0] == '['
				if _, ok := v.(*Slice); ok != isSl {
					continue
				}
				id2 := id
				add(fmt.Sprintf("%s[%s] unchanged", l.name, id), func(s *State, p []Val) *Term { return Eq(Select(l.get(s, p), id2), Select(l.entry, id2)) })
			}
		}
	}
	// pairwise order between phi numbers
	for _, a := range nums {
		for _, b := range nums {
			a, b := a, b
			if a == b || !a.phi || !b.phi || !isNum(a.typ) || !isNum(b.typ) {
				continue
			}
			add(a.name+" <= "+b.name, func(s *State, p []Val) *Term { return Le(a.get(s, p), b.get(s, p)) })
		}
	}
	// conservation laws
	if len(nums) > 1 && len(nums) < 40 {
		for _, vec := range nullspace(nums, head, hph, backs) {
			vec := vec
			name := "conserved:"
			for i, c := range vec {
				if c.Sign() != 0 {
					name += fmt.Sprintf(" %s*%s", c, nums[i].name)
				}
			}
			add(name, func(s *State, p []Val) *Term {
				t := I(0)
				for i, c := range vec {
					if c.Sign() != 0 {
						t = Add(t, Mul(IB(c), Sub(nums[i].get(s, p), nums[i].entry)))
					}
				}
				return Eq(t, I(0))
			})
		}
	}
	if il.extra != nil {
		cs = append(cs, il.extra(entry, ephis, locs)...)
	}
	_ = x
	return cs
}

// nullspace finds integer vectors c with sum c_i * delta_i = 0 on every back edge.
func nullspace(nums []*loc, head *State, hph []Val, backs []outcome) [][]*big.Int {
	n := len(nums)
	var rows [][]*big.Rat
	for _, o := range backs {
		atoms := map[*Term][]*big.Rat{}
		var order []*Term
		one := tTrue // stands for the constant
		put := func(a *Term, i int, c *big.Int) {
			r := atoms[a]
			if r == nil {
				r = make([]*big.Rat, n)
				for k := range r {
					r[k] = new(big.Rat)
				}
				atoms[a] = r
				order = append(order, a)
			}
			r[i].Add(r[i], new(big.Rat).SetInt(c))
		}
		bad := false
		for i, l := range nums {
			func() {
				defer func() {
					if recover() != nil {
						bad = true
					}
				}()
				d := linOf(Sub(l.get(o.st, o.vals), l.get(head, hph)))
				var ks []*Term
				for k := range d.co {
					ks = append(ks, k)
				}
				sort.Slice(ks, func(a, b int) bool { return ks[a].id < ks[b].id })
				for _, k := range ks {
					put(k, i, d.co[k])
				}
				if d.c.Sign() != 0 {
					put(one, i, d.c)
				}
			}()
		}
		if bad {
			return nil
		}
		for _, a := range order {
			rows = append(rows, atoms[a])
		}
	}
	// gaussian elimination
	piv := make([]int, 0)
	r := 0
	for col := 0; col < n && r < len(rows); col++ {
		p := -1
		for k := r; k < len(rows); k++ {
			if rows[k][col].Sign() != 0 {
				p = k
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(big.Rat).Inv(rows[r][col])
		for j := 0; j < n; j++ {
			rows[r][j] = new(big.Rat).Mul(rows[r][j], inv)
		}
		for k := 0; k < len(rows); k++ {
			if k != r && rows[k][col].Sign() != 0 {
				f := new(big.Rat).Set(rows[k][col])
				for j := 0; j < n; j++ {
					rows[k][j] = new(big.Rat).Sub(rows[k][j], new(big.Rat).Mul(f, rows[r][j]))
				}
			}
		}
		piv = append(piv, col)
		r++
	}
	isP := map[int]int{}
	for k, c := range piv {
		isP[c] = k
	}
	var out [][]*big.Int
	for f := 0; f < n; f++ {
		if _, ok := isP[f]; ok {
			continue
		}
		v := make([]*big.Rat, n)
		for j := range v {
			v[j] = new(big.Rat)
		}
		v[f].SetInt64(1)
		for c, k := range isP {
			v[c].Neg(rows[k][f])
		}
		den := big.NewInt(1)
		for _, q := range v {
			g := new(big.Int).GCD(nil, nil, den, q.Denom())
			den = new(big.Int).Mul(den, new(big.Int).Div(q.Denom(), g))
		}
		w := make([]*big.Int, n)
		for j, q := range v {
			w[j] = new(big.Int).Div(new(big.Int).Mul(q.Num(), den), q.Denom())
		}
		out = append(out, w)
	}
	return out
}

// entailsC gives the solver more time for invariants from a specification.
func (x *exec) entailsC(st *State, t *Term, c cand) bool {
	if t.op == "true" {
		return true
	}
	if strings.HasPrefix(c.name, "spec:") {
		for _, g := range goalParts(t) {
			if !x.feasibleMs(st, Not(g), 2500) {
				continue
			}
			q := smtQuery(append(append([]*Term{}, st.pc...), Not(g)))
			if r, ok := x.satCache[q]; ok && r == "sat" {
				return false
			}
			t0 := time.Now()
			r := discharge(q, 15*time.Second, "")
			dbg("  discharge %.1fs %s %s", time.Since(t0).Seconds(), r.verdict, c.name)
			x.satCache[q] = r.verdict
			if r.verdict != "unsat" {
				if d := os.Getenv("GOVC_DUMPDIR"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/inv%p.smt2", d, g), []byte("; "+c.name+"\n"+q), 0o644)
				}
				return false
			}
		}
		return true
	}
	return x.entails(st, t)
}

// goalParts splits a conjunction (also under a quantifier) into goals.
func goalParts(t *Term) []*Term {
	switch t.op {
	case "true":
		return nil
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, goalParts(a)...)
		}
		return out
	case "or":
		for i, a := range t.args {
			if a.op == "and" {
				var out []*Term
				for _, c := range a.args {
					n := append([]*Term{}, t.args...)
					n[i] = c
					out = append(out, goalParts(Or(n...))...)
				}
				return out
			}
		}
	case "forall":
		ps := goalParts(t.args[0])
		if len(ps) > 1 {
			var out []*Term
			for _, p := range ps {
				out = append(out, Forall(t.qv, p))
			}
			return out
		}
	}
	return []*Term{t}
}

// oursT: a type declared in the module under verification.
func oursT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modpath)
}

// looseInv offers the invariants of a unit to all its loops (the fallback when
// the loops of the source are not the ones the invariants were written for).
var looseInv bool

func sortedFns(m map[string]map[int][]invX) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func sortedInts(m map[int][]invX) (ks []int) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return
}

// counter recognises a phi that starts at a constant and is only incremented by
// one, and gives the constant.
func counter(p *ssa.Phi) (int64, bool) {
	b := p.Block()
	var lo int64
	n := 0
	for i, e := range p.Edges {
		if b.Dominates(b.Preds[i]) {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
				return 0, false
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Int64() != 1 {
				return 0, false
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int || n > 0 {
			return 0, false
		}
		lo = c.Int64()
		n++
	}
	return lo, n == 1
}

// headLoad: a value computed in the loop from things that existed before it by
// loads, field accesses and len only (the bound of `i < len(x.f)`).
func headLoad(v ssa.Value, fr *Frame, d int) bool {
	if fr.env[v] != nil {
		return d > 0
	}
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL && headLoad(v.X, fr, d+1)
	case *ssa.FieldAddr:
		return headLoad(v.X, fr, d+1)
	case *ssa.Field:
		return headLoad(v.X, fr, d+1)
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && headLoad(v.Call.Args[0], fr, d+1)
	}
	return false
}

// evalLoad evaluates such a value in the state before the loop.
func (x *exec) evalLoad(st *State, fr *Frame, v ssa.Value) Val {
	if r := fr.env[v]; r != nil {
		return r
	}
	for _, o := range v.(ssa.Instruction).Operands(nil) {
		if _, ok := (*o).(*ssa.Builtin); !ok {
			x.evalLoad(st, fr, *o)
		}
	}
	fr.env[v] = x.simple(st, fr, v)
	return fr.env[v]
}

// invsOf gives the invariants written for a loop: those of the function's
// contract and of the unit being verified. Loops of helpers that did not exist
// when the invariants were written are numbered in the place of the call.
func (x *exec) invsOf(fn *ssa.Function, index int) (invs []invX) {
	seen := map[*ssa.Function]bool{}
	own := func(c *Contract, f *ssa.Function, m map[int][]invX) {
		if f == nil || len(m) == 0 {
			return
		}
		if j, ok := x.P.flat(f)[flatLoop{fn, index}]; ok {
			invs = append(invs, m[j]...)
		}
		seen[f] = true
	}
	if con := x.P.contracts[fnName(fn)]; con != nil {
		own(con, fn, con.LoopInv)
	}
	if x.unit != nil {
		uc := x.unit.con
		if uc.fn != "" && !seen[x.P.fn(uc.fn)] {
			own(uc, x.P.fn(uc.fn), uc.LoopInv)
		} else if con := x.P.contracts[fnName(fn)]; con != uc && uc.full == fnName(fn) {
			own(uc, fn, uc.LoopInv)
		}
		for _, n := range sortedFns(uc.loopIn) {
			own(uc, x.P.fn(n), uc.loopIn[n])
		}
	}
	return
}

type flatLoop struct {
	fn    *ssa.Function
	index int
}

// flat numbers the loops of f together with those of the helpers it calls that
// are not in the list of functions known to the specifications.
func (P *Program) flat(f *ssa.Function) map[flatLoop]int {
	if m, ok := P.flats[f]; ok {
		return m
	}
	if P.flats == nil {
		P.flats = map[*ssa.Function]map[flatLoop]int{}
	}
	m := map[flatLoop]int{}
	n := 0
	var walk func(g *ssa.Function, d int)
	walk = func(g *ssa.Function, d int) {
		type item struct {
			pos  token.Pos
			l    *loopInfo
			call *ssa.Function
		}
		var loops, calls []item
		for _, l := range P.loopsOf(g) {
			it := item{l: l}
			for b := range l.body {
				for _, in := range b.Instrs {
					if p := in.Pos(); p.IsValid() && (it.pos == 0 || p < it.pos) {
						if _, phi := in.(*ssa.Phi); !phi {
							it.pos = p
						}
					}
				}
			}
			loops = append(loops, it)
		}
		sort.Slice(loops, func(i, j int) bool { return loops[i].l.index < loops[j].l.index })
		if d < 4 && P.known != nil {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						h := c.Common().StaticCallee()
						if h != nil && h != g && h.Pkg != nil && P.src[h.Pkg.Pkg.Path()] && h.Blocks != nil && !P.known[fnName(h)] {
							calls = append(calls, item{pos: in.Pos(), call: h})
						}
					}
				}
			}
		}
		sort.SliceStable(calls, func(i, j int) bool { return calls[i].pos < calls[j].pos })
		for len(loops) > 0 || len(calls) > 0 {
			if len(calls) > 0 && (len(loops) == 0 || calls[0].pos < loops[0].pos) {
				walk(calls[0].call, d+1)
				calls = calls[1:]
				continue
			}
			if k := (flatLoop{g, loops[0].l.index}); true {
				if _, ok := m[k]; !ok {
					m[k] = n
				}
			}
			n++
			loops = loops[1:]
		}
	}
	walk(f, 0)
	P.flats[f] = m
	return m
}

// loadKnown reads the list of functions known to the specifications.
func (P *Program) loadKnown(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	P.known = map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			P.known[l] = true
		}
	}
}

// functionNames lists the functions of the repository.
func (P *Program) functionNames() (out []string) {
	for f := range ssautil.AllFunctions(P.prog) {
		if f.Pkg != nil && P.src[f.Pkg.Pkg.Path()] && f.Blocks != nil {
			out = append(out, fnName(f))
		}
	}
	sort.Strings(out)
	return
}
