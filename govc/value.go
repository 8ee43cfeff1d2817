package main

// Symbolic values and the memory model.
//
// A Go value is represented by a Val.  Every type that may live in symbolic
// memory is flattened into scalar leaves; heap objects live in one SMT array
// per (type, leaf), indexed by an integer object reference.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Val interface{}

type Num struct{ Nil, V *Term } // math.Int, math.LegacyDec

type Struct struct {
	T types.Type
	F []Val
}

type Tuple []Val

type Cell struct {
	id   int
	name string
	T    types.Type
}

// Ptr is a pointer: to a local cell, to a heap object or to a slice element.
type Ptr struct {
	Cell *Cell
	Ref  *Term      // heap object reference (nil pointer: const 0)
	Sl   *Slice     // slice element base
	Idx  *Term      // slice element index (absolute)
	Path []int      // field path
	T    types.Type // type of the base object
}

// Slice: symbolic (Id/Off/Len over the element heap) or a concrete array cell.
type Slice struct {
	Elem types.Type
	Id   *Term
	Off  *Term
	Len  *Term
	Arr  *Cell // concrete: the cell holds *Struct with F = elements (array)
	Lo   int
	N    int
	NilV bool
}

type Iface struct {
	Dyn types.Type // concrete dynamic type (nil if symbolic)
	V   Val
	Ref *Term // symbolic reference, 0 = nil
	T   types.Type
}

type Func struct {
	Fn    interface{} // *ssa.Function or *ssa.Builtin or native
	Binds []Val
	Nat   func(x *exec, st *State, args []Val) []outcome
}

// Bag is sdk.Coins / DecCoins: amount by denomination code.
type Bag struct {
	A     *Term // Array Int Int
	Elems []Val // known list of coins (Struct), when built from literals
	Known bool
}

type MapVal struct {
	T    *types.Map
	Dom  *Term
	L    []*Term // leaf arrays
	Sum  *Term   // sum of numeric values, when the value type is numeric
	Size *Term
	Keys []Val // concrete insertion order when all keys are concrete
}

type MapRef struct {
	Cell *Cell // a local map
	Ref  *Term // a map on the heap; both nil: the nil map
	T    *types.Map
}

func (m MapRef) isNil() bool { return m.Cell == nil && m.Ref == nil }

type Opaque struct {
	T types.Type
	C *Term
}

type moved struct {
	ref *Term
	T   types.Type
}

type rangeIter struct {
	kind string
	m    *MapRef
	cell *Cell
}

// ---- type helpers ----

func named(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

func shortT(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func isNum(t types.Type) bool {
	switch named(t) {
	case "cosmossdk.io/math.Int", "cosmossdk.io/math.LegacyDec", "cosmossdk.io/math.Uint":
		return true
	}
	return false
}

func isDec(t types.Type) bool { return named(t) == "cosmossdk.io/math.LegacyDec" }

func isBag(t types.Type) bool {
	switch named(t) {
	case "github.com/cosmos/cosmos-sdk/types.Coins", "github.com/cosmos/cosmos-sdk/types.DecCoins":
		return true
	}
	return false
}

func isOpaqueNamed(t types.Type) bool {
	switch named(t) {
	case "time.Time", "github.com/cosmos/cosmos-sdk/types.Context", "math/big.Int", "github.com/cosmos/cosmos-sdk/x/params/types.Subspace":
		return true
	}
	return false
}

func isBytes(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return true
		}
	}
	return false
}

type Leaf struct {
	path string
	sort Sort
}

var flatCache = map[string][]Leaf{}

func flatten(t types.Type) []Leaf {
	k := types.TypeString(t, nil)
	if l, ok := flatCache[k]; ok {
		return l
	}
	l := flatten1(t)
	flatCache[k] = l
	return l
}

// ptrPaths: which leaves of a type are pointers to objects.
var ptrCache = map[string]map[string]bool{}

func ptrPaths(t types.Type) map[string]bool {
	k := types.TypeString(t, nil)
	if m, ok := ptrCache[k]; ok {
		return m
	}
	m := map[string]bool{}
	ptrCache[k] = m
	t = types.Unalias(t)
	if isNum(t) || isBag(t) || isOpaqueNamed(t) || isBytes(t) {
		return m
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for p := range ptrPaths(u.Field(i).Type()) {
				m["."+u.Field(i).Name()+p] = true
			}
		}
	case *types.Pointer, *types.Map:
		m[""] = true
	}
	return m
}

// ptrHeaps: the heap arrays that hold pointers.
var ptrHeaps = map[string]bool{}

func markPtr(name string, t types.Type, l Leaf) {
	if ptrPaths(t)[l.path] {
		ptrHeaps[name] = true
	}
}

func flatten1(t types.Type) []Leaf {
	t = types.Unalias(t)
	if isNum(t) {
		return []Leaf{{"#nil", SBool}, {"#v", SInt}}
	}
	if isBag(t) {
		return []Leaf{{"#bag", arrSort(SInt)}}
	}
	if isOpaqueNamed(t) || isBytes(t) {
		return []Leaf{{"", SInt}}
	}
	if t == types.Type(govcSet) {
		return []Leaf{{"", arrSort(SBool)}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Leaf{{"", SBool}}
		}
		return []Leaf{{"", SInt}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range flatten(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.path, l.sort})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for i := 0; i < int(u.Len()); i++ {
			for _, l := range flatten(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.path), l.sort})
			}
		}
		return out
	case *types.Slice:
		return []Leaf{{"#id", SInt}, {"#off", SInt}, {"#len", SInt}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range flatten(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("#%d%s", i, l.path), l.sort})
			}
		}
		return out
	default: // pointer, interface, map, func, chan
		return []Leaf{{"", SInt}}
	}
}

// build makes a value of type t from leaf terms.
func build(t types.Type, ls []*Term) Val {
	v, rest := build1(t, ls)
	if len(rest) != 0 {
		panic("build: leftover leaves for " + t.String())
	}
	return v
}

func build1(t types.Type, ls []*Term) (Val, []*Term) {
	t = types.Unalias(t)
	if isNum(t) {
		return Num{ls[0], ls[1]}, ls[2:]
	}
	if isBag(t) {
		return &Bag{A: ls[0]}, ls[1:]
	}
	if named(t) == "math/big.Int" || isOpaqueNamed(t) || isBytes(t) || t == types.Type(govcSet) {
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ls[0], ls[1:]
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ls = build1(u.Field(i).Type(), ls)
			s.F = append(s.F, v)
		}
		return s, ls
	case *types.Array:
		s := &Struct{T: t}
		for i := 0; i < int(u.Len()); i++ {
			var v Val
			v, ls = build1(u.Elem(), ls)
			s.F = append(s.F, v)
		}
		return s, ls
	case *types.Slice:
		return &Slice{Elem: u.Elem(), Id: ls[0], Off: ls[1], Len: ls[2]}, ls[3:]
	case *types.Tuple:
		var s Tuple
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ls = build1(u.At(i).Type(), ls)
			s = append(s, v)
		}
		return s, ls
	case *types.Pointer:
		return Ptr{Ref: ls[0], T: u.Elem()}, ls[1:]
	case *types.Interface:
		return Iface{Ref: ls[0], T: t}, ls[1:]
	case *types.Map:
		if ls[0].isConst() && ls[0].ival.Sign() == 0 {
			return MapRef{T: u}, ls[1:]
		}
		return MapRef{T: u, Ref: ls[0]}, ls[1:]
	default:
		return Opaque{t, ls[0]}, ls[1:]
	}
}

// freshVal makes an arbitrary value of type t (with its natural range facts).
func (x *exec) freshVal(st *State, t types.Type, hint string) Val {
	var ls []*Term
	for _, l := range flatten(t) {
		s := Fresh(hint+l.path, l.sort)
		ls = append(ls, s)
	}
	v := build(t, ls)
	x.assumeRange(st, t, v)
	return v
}

// assumeRange adds type-range assumptions of a symbolic value.
func (x *exec) assumeRange(st *State, t types.Type, v Val) {
	t = types.Unalias(t)
	switch vv := v.(type) {
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok && !isOpaqueNamed(t) {
			if lo, hi := intRange(b); lo != nil {
				st.assume(Le(IB(lo), vv))
				st.assume(Le(vv, IB(hi)))
			} else if b.Info()&types.IsString != 0 {
				st.assume(Le(I(0), vv))
			}
		} else if isBytes(t) {
			st.assume(Le(I(0), vv))
		}
	case *Struct:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range vv.F {
				x.assumeRange(st, u.Field(i).Type(), vv.F[i])
			}
		case *types.Array:
			for i := range vv.F {
				x.assumeRange(st, u.Elem(), vv.F[i])
			}
		}
	case *Slice:
		if vv.Len != nil {
			st.assume(Le(I(0), vv.Len))
			st.assume(Le(vv.Len, IB(big.NewInt(1<<40))))
			st.assume(Le(I(0), vv.Off))
			st.assume(Imp(Eq(vv.Id, I(0)), Eq(vv.Len, I(0))))
		}
	case *Bag:
		// coins carry no negative amount: assumed where an amount is read
	case Tuple:
		tt := t.(*types.Tuple)
		for i := range vv {
			x.assumeRange(st, tt.At(i).Type(), vv[i])
		}
	}
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intRange(b *types.Basic) (lo, hi *big.Int) {
	u := func(n uint) (*big.Int, *big.Int) {
		return big.NewInt(0), new(big.Int).Sub(pow2(n), big.NewInt(1))
	}
	s := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), big.NewInt(1))
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil
}

// zeroVal is the Go zero value of t.
func zeroVal(t types.Type) Val {
	t = types.Unalias(t)
	if isNum(t) {
		return Num{tTrue, I(0)}
	}
	if isBag(t) {
		return &Bag{A: ConstArr(arrSort(SInt), I(0)), Known: true}
	}
	if named(t) == "time.Time" {
		return IB(zeroTime)
	}
	if named(t) == "math/big.Int" {
		return I(0)
	}
	if isOpaqueNamed(t) || isBytes(t) {
		return I(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Kind() == types.UntypedNil {
			return I(0)
		}
		return I(0)
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &Struct{T: t}
		for i := 0; i < int(u.Len()); i++ {
			s.F = append(s.F, zeroVal(u.Elem()))
		}
		return s
	case *types.Slice:
		return &Slice{Elem: u.Elem(), NilV: true, Id: I(0), Off: I(0), Len: I(0)}
	case *types.Tuple:
		var s Tuple
		for i := 0; i < u.Len(); i++ {
			s = append(s, zeroVal(u.At(i).Type()))
		}
		return s
	case *types.Pointer:
		return Ptr{Ref: I(0), T: u.Elem()}
	case *types.Interface:
		return Iface{Ref: I(0), T: t}
	case *types.Map:
		return MapRef{T: u}
	case *types.Signature:
		return Func{}
	default:
		return Opaque{t, I(0)}
	}
}

var zeroTime = big.NewInt(-62135596800)

// ---- strings ----

var strCodes = map[string]*Term{}
var strOfCode = map[string]string{}

func strConst(s string) *Term {
	if s == "" {
		return I(0)
	}
	if t, ok := strCodes[s]; ok {
		return t
	}
	t := I(int64(1000000000 + len(strCodes) + 1))
	strCodes[s] = t
	strOfCode[t.ival.String()] = s
	return t
}

func constStr(t *Term) (string, bool) {
	if t.isConst() {
		if t.ival.Sign() == 0 {
			return "", true
		}
		s, ok := strOfCode[t.ival.String()]
		return s, ok
	}
	return "", false
}

// type tags for dynamic types
var typeTags = map[string]*Term{}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if x, ok := typeTags[k]; ok {
		return x
	}
	x := I(int64(len(typeTags) + 1))
	typeTags[k] = x
	return x
}

// ---- state ----

type State struct {
	pc    []*Term
	cells map[*Cell]Val
	heap  map[string]*Term
	log   *writeLog
	notes []string
	trace []string
	hav   []havE // heaps replaced before they were first looked at
}

type havE struct {
	prefix string
	id     int
}

var havN int

// havoc replaces every heap array with the prefix, also those not looked at yet.
func (s *State) havoc(prefix string) {
	havN++
	s.hav = append(append([]havE{}, s.hav...), havE{prefix, havN})
}

// inRegion: a heap array belongs to the region named by a prefix; "!store" is
// everything but the stores, balances, supplies and parameters.
func inRegion(n, p string) bool {
	if p == "!store" {
		return !strings.HasPrefix(n, "kv.") && n != hBal && n != hSup && !strings.HasPrefix(n, "param.")
	}
	return strings.HasPrefix(n, p)
}

// initName names the content a heap array has where it was never written.
func (s *State) initName(n string) string {
	for i := len(s.hav) - 1; i >= 0; i-- {
		if inRegion(n, s.hav[i].prefix) {
			return fmt.Sprintf("HV%d:%s", s.hav[i].id, n)
		}
	}
	return "H0:" + n
}

type writeLog struct {
	cells map[*Cell]bool
	heap  map[string]bool
}

func newState() *State {
	return &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), log: s.log, hav: s.hav}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = append(make([]*Term, 0, len(s.pc)+8), s.pc...)
	n.notes = append([]string{}, s.notes...)
	n.trace = append([]string{}, s.trace...)
	return n
}

func (s *State) assume(t *Term) {
	if t.op == "true" {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
}

func (s *State) hget(name string, sort Sort) *Term {
	heapSorts[name] = sort
	if t, ok := s.heap[name]; ok {
		return t
	}
	t := Sym(s.initName(name), sort)
	s.heap[name] = t
	return t
}

func (s *State) hset(name string, t *Term) {
	s.heap[name] = t
	if s.log != nil {
		s.log.heap[name] = true
	}
}

func (s *State) setCell(c *Cell, v Val) {
	s.cells[c] = v
	if s.log != nil {
		s.log.cells[c] = true
	}
}

var cellN int

func newCell(name string, t types.Type) *Cell {
	cellN++
	return &Cell{id: cellN, name: name, T: t}
}

var allocN int64

func newRef() *Term {
	allocN++
	return I(-allocN)
}

// ---- leaves of a value (reifying local objects when needed) ----

func (x *exec) leaves(st *State, v Val, t types.Type) []*Term {
	t = types.Unalias(t)
	switch vv := v.(type) {
	case *Term:
		return []*Term{vv}
	case Num:
		return []*Term{vv.Nil, vv.V}
	case *Bag:
		return []*Term{vv.A}
	case *Struct:
		var out []*Term
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i, f := range vv.F {
				out = append(out, x.leaves(st, f, u.Field(i).Type())...)
			}
		case *types.Array:
			for _, f := range vv.F {
				out = append(out, x.leaves(st, f, u.Elem())...)
			}
		default:
			panic(unsupported("leaves of struct as " + t.String()))
		}
		return out
	case Tuple:
		var out []*Term
		tt := t.(*types.Tuple)
		for i, f := range vv {
			out = append(out, x.leaves(st, f, tt.At(i).Type())...)
		}
		return out
	case *Slice:
		s := x.reifySlice(st, vv)
		return []*Term{s.Id, s.Off, s.Len}
	case Ptr:
		return []*Term{x.reifyPtr(st, vv)}
	case Iface:
		return []*Term{x.reifyIface(st, vv)}
	case Opaque:
		return []*Term{vv.C}
	case Func:
		return []*Term{Fresh("func", SInt)}
	case MapRef:
		return []*Term{x.reifyMap(st, vv)}
	case Rope:
		vv = vv.norm()
		c := ropeCode(vv)
		if len(vv.S) > 1 {
			ropeOf[c] = vv
		}
		return []*Term{c}
	}
	panic(unsupported(fmt.Sprintf("leaves of %T as %s", v, t)))
}

// reifyMap gives a map a reference; a local map moves to the heap.
func (x *exec) reifyMap(st *State, m MapRef) *Term {
	if m.Ref != nil {
		return m.Ref
	}
	if m.Cell == nil {
		return I(0)
	}
	if mv, ok := st.cells[m.Cell].(moved); ok {
		return mv.ref
	}
	mv := st.cells[m.Cell].(*MapVal)
	ref := newRef()
	st.setCell(m.Cell, moved{ref, m.T})
	x.mapPut(st, MapRef{Ref: ref, T: m.T}, mv)
	return ref
}

// mapVal is the content of a map (nil for the nil map).
func (x *exec) mapVal(st *State, m MapRef) *MapVal {
	if m.Cell != nil {
		switch v := st.cells[m.Cell].(type) {
		case *MapVal:
			return v
		case moved:
			m = MapRef{Ref: v.ref, T: m.T}
		default:
			panic(unsupported("map cell"))
		}
	}
	if m.Ref == nil || m.Ref.isConst() && m.Ref.ival.Sign() == 0 {
		return nil
	}
	h := func(n string, s Sort) *Term { return Select(st.hget("map:"+shortT(m.T)+n, arrSort(s)), m.Ref) }
	mv := &MapVal{T: m.T, Dom: h("#dom", arrSort(SBool)), Sum: h("#sum", SInt), Size: h("#size", SInt)}
	for i, l := range flatten(m.T.Elem()) {
		markPtr("map:"+shortT(m.T)+fmt.Sprintf("%s#%d", l.path, i), m.T.Elem(), l)
		mv.L = append(mv.L, h(fmt.Sprintf("%s#%d", l.path, i), arrSort(l.sort)))
	}
	empty := Eq(mv.Dom, ConstArr(arrSort(SBool), tFalse))
	if !m.Ref.isConst() {
		st.assume(Imp(Eq(m.Ref, I(0)), empty))
	}
	st.assume(Ge(mv.Size, I(0)))
	st.assume(Eq(empty, Eq(mv.Size, I(0))))
	return mv
}

func (x *exec) mapPut(st *State, m MapRef, mv *MapVal) {
	if m.Cell != nil {
		v, ok := st.cells[m.Cell].(moved)
		if !ok {
			st.setCell(m.Cell, mv)
			return
		}
		m = MapRef{Ref: v.ref, T: m.T}
	}
	x.needNonNil(st, m.Ref)
	put := func(n string, s Sort, v *Term) {
		n = "map:" + shortT(m.T) + n
		st.hset(n, Store(st.hget(n, arrSort(s)), m.Ref, v))
	}
	put("#dom", arrSort(SBool), mv.Dom)
	put("#sum", SInt, mv.Sum)
	put("#size", SInt, mv.Size)
	for i, l := range flatten(m.T.Elem()) {
		markPtr("map:"+shortT(m.T)+fmt.Sprintf("%s#%d", l.path, i), m.T.Elem(), l)
		put(fmt.Sprintf("%s#%d", l.path, i), arrSort(l.sort), mv.L[i])
	}
}

func (x *exec) reifyPtr(st *State, p Ptr) *Term {
	if p.Ref != nil && len(p.Path) == 0 {
		return p.Ref
	}
	if p.Cell != nil && len(p.Path) == 0 {
		if m, ok := st.cells[p.Cell].(moved); ok {
			return m.ref
		}
		if strings.HasPrefix(p.Cell.name, "global:") {
			return I(int64(-5000000 - p.Cell.id))
		}
		ref := newRef()
		v := st.cells[p.Cell]
		st.setCell(p.Cell, moved{ref, p.Cell.T})
		x.heapStore(st, ref, p.Cell.T, nil, v)
		return ref
	}
	if p.Ref != nil && len(p.Path) > 0 { // interior pointer
		return UF("interior."+shortT(p.T)+fmt.Sprint(p.Path), SInt, p.Ref)
	}
	panic(unsupported("reify interior pointer"))
}

func (x *exec) reifyIface(st *State, i Iface) *Term {
	if i.Dyn == nil {
		return i.Ref
	}
	var ref *Term
	switch v := i.V.(type) {
	case Ptr:
		ref = x.reifyPtr(st, v)
	default:
		ls := x.leaves(st, v, i.Dyn)
		if len(ls) == 0 {
			ref = UF("box."+shortT(i.Dyn), SInt)
		} else {
			ref = UF("box."+shortT(i.Dyn), SInt, ls...)
			for k, l := range ls {
				addFact(ref, Eq(UF(fmt.Sprintf("unbox%d.%s", k, shortT(i.Dyn)), l.sort, ref), l))
			}
			addFact(ref, Ne(ref, I(0)))
		}
	}
	st.assume(Eq(UF("dyn", SInt, ref), typeTag(i.Dyn)))
	return ref
}

func (x *exec) reifySlice(st *State, s *Slice) *Slice {
	if s.Arr == nil {
		return s
	}
	id := newRef()
	n := &Slice{Elem: s.Elem, Id: id, Off: I(0), Len: I(int64(s.N))}
	arr, ok := st.cells[s.Arr].(*Struct)
	if !ok {
		panic(unsupported("reify slice of moved array"))
	}
	for k, l := range flatten(s.Elem) {
		name := "[]" + shortT(s.Elem) + l.path
		h := st.hget(name, arrSort(arrSort(l.sort)))
		inner := Sym(fmt.Sprintf("arr0:%s:%s", id.ival.String(), l.path), arrSort(l.sort))
		for i := 0; i < s.N; i++ {
			inner = Store(inner, I(int64(i)), x.leaves(st, arr.F[s.Lo+i], s.Elem)[k])
		}
		h = st.hget(name, arrSort(arrSort(l.sort)))
		st.hset(name, Store(h, id, inner))
	}
	return n
}

// ---- heap access ----

// subPath resolves a field path below type t: leaf path prefix and sub type.
func subPath(t types.Type, path []int) (string, types.Type) {
	p := ""
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			p += "." + u.Field(i).Name()
			t = u.Field(i).Type()
		case *types.Array:
			p += fmt.Sprintf("[%d]", i)
			t = u.Elem()
		default:
			panic(unsupported("subPath in " + t.String()))
		}
	}
	return p, t
}

func (x *exec) heapLoad(st *State, ref *Term, t types.Type, path []int) Val {
	pre, sub := subPath(t, path)
	if x.embedIdentity(t, path, sub) {
		return Ptr{Ref: ref, T: sub.(*types.Pointer).Elem()}
	}
	var ls []*Term
	tn := shortT(t)
	for _, l := range flatten(sub) {
		markPtr(tn+pre+l.path, sub, l)
		h := st.hget(tn+pre+l.path, arrSort(l.sort))
		ls = append(ls, Select(h, ref))
	}
	// embedded identity for whole-struct loads
	oldRefs(sub, ls)
	v := build(sub, ls)
	if s, ok := v.(*Struct); ok {
		if u, ok := sub.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if x.embedIdentity(sub, []int{i}, u.Field(i).Type()) && len(path) == 0 {
					s.F[i] = Ptr{Ref: ref, T: u.Field(i).Type().(*types.Pointer).Elem()}
				}
			}
		}
	}
	x.loadRange(st, sub, v)
	return v
}

// loadRange assumes the type ranges of a loaded value (fields of Go values
// always lie in their type's range).
func (x *exec) loadRange(st *State, t types.Type, v Val) { x.assumeRange(st, t, v) }

// embedIdentity: an embedded *amm.BaseOrder is identified with its holder.
func (x *exec) embedIdentity(t types.Type, path []int, sub types.Type) bool {
	if len(path) != 1 {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	f := s.Field(path[0])
	p, ok := sub.(*types.Pointer)
	return ok && f.Embedded() && strings.HasSuffix(named(p.Elem()), "amm.BaseOrder")
}

func (x *exec) heapStore(st *State, ref *Term, t types.Type, path []int, v Val) {
	pre, sub := subPath(t, path)
	tn := shortT(t)
	if x.embedIdentity(t, path, sub) {
		x.storeEmbedded(st, ref, v)
		return
	}
	if s, ok := v.(*Struct); ok && len(path) == 0 {
		if u, ok := sub.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				x.heapStore(st, ref, t, []int{i}, s.F[i])
			}
			return
		}
	}
	ls := x.leaves(st, v, sub)
	for k, l := range flatten(sub) {
		name := tn + pre + l.path
		markPtr(name, sub, l)
		h := st.hget(name, arrSort(l.sort))
		if x.onHeapStore != nil {
			x.onHeapStore(st, name, h, ref, ls[k])
		}
		st.hset(name, Store(h, ref, ls[k]))
	}
}

// storeEmbedded copies the embedded base object into the holder's identity.
func (x *exec) storeEmbedded(st *State, ref *Term, v Val) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("embedded store"))
	}
	if p.Ref == ref {
		return
	}
	if p.Cell != nil && len(p.Path) == 0 {
		if m, isMoved := st.cells[p.Cell].(moved); isMoved {
			if m.ref == ref {
				return
			}
			panic(unsupported("embedding an escaped base order"))
		}
		val := st.cells[p.Cell]
		t := p.Cell.T
		st.setCell(p.Cell, moved{ref, t})
		x.heapStore(st, ref, t, nil, val)
		return
	}
	if p.Ref != nil {
		st.assume(Eq(p.Ref, ref))
		return
	}
	panic(unsupported("embedding"))
}

// ---- load / store through pointers ----

func getPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("path into %T", v)))
		}
		v = s.F[i]
	}
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(*Struct)
	if !ok {
		panic(unsupported(fmt.Sprintf("path into %T", v)))
	}
	n := &Struct{T: s.T, F: append([]Val{}, s.F...)}
	n.F[path[0]] = setPath(s.F[path[0]], path[1:], nv)
	return n
}

func (x *exec) load(st *State, p Ptr) Val {
	if p.Cell == nil && p.Sl == nil && p.Ref != nil {
		x.needNonNil(st, p.Ref)
	}
	return x.peek(st, p)
}

// peek: load without taking a nil pointer for granted (specifications).
func (x *exec) peek(st *State, p Ptr) Val {
	switch {
	case p.Cell != nil:
		v, ok := st.cells[p.Cell]
		if !ok {
			v = x.globalVal(st, p.Cell)
		}
		if m, ok := v.(moved); ok {
			return x.heapLoad(st, m.ref, m.T, p.Path)
		}
		return getPath(v, p.Path)
	case p.Sl != nil:
		return x.sliceLoad(st, p.Sl, p.Idx, p.Path)
	case p.Ref != nil:
		return x.heapLoad(st, p.Ref, p.T, p.Path)
	}
	panic(unsupported("load"))
}

func (x *exec) store(st *State, p Ptr, v Val) {
	switch {
	case p.Cell != nil:
		old, ok := st.cells[p.Cell]
		if !ok {
			old = x.globalVal(st, p.Cell)
		}
		if m, ok := old.(moved); ok {
			x.heapStore(st, m.ref, m.T, p.Path, v)
			return
		}
		st.setCell(p.Cell, setPath(old, p.Path, v))
	case p.Sl != nil:
		x.sliceStore(st, p.Sl, p.Idx, p.Path, v)
	case p.Ref != nil:
		x.needNonNil(st, p.Ref)
		x.heapStore(st, p.Ref, p.T, p.Path, v)
	default:
		panic(unsupported("store"))
	}
}

func (x *exec) needNonNil(st *State, ref *Term) {
	st.assume(Ne(ref, I(0))) // nil dereference panics: such runs are outside partial correctness
}

// oldRefs: what the heap held at entry existed at entry, so a pointer read
// from it is not one of the objects allocated since (those are negative).
func oldRefs(t types.Type, ls []*Term) {
	if len(ls) != 1 || !ptrPaths(t)[""] {
		return
	}
	s := ls[0]
	for s.op == "select" {
		s = s.args[0]
	}
	if s != ls[0] && len(s.args) == 0 && strings.HasPrefix(s.name, "H0:") {
		addFact(ls[0], Ge(ls[0], I(0)))
	}
}

// sliceLoad: idx absolute (already offset).
func (x *exec) sliceLoad(st *State, s *Slice, idx *Term, path []int) Val {
	pre, sub := subPath(s.Elem, path)
	var ls []*Term
	for _, l := range flatten(sub) {
		markPtr("[]"+shortT(s.Elem)+pre+l.path, sub, l)
		h := st.hget("[]"+shortT(s.Elem)+pre+l.path, arrSort(arrSort(l.sort)))
		ls = append(ls, Select(Select(h, s.Id), idx))
	}
	v := build(sub, ls)
	x.loadRange(st, sub, v)
	return v
}

func (x *exec) sliceStore(st *State, s *Slice, idx *Term, path []int, v Val) {
	pre, sub := subPath(s.Elem, path)
	ls := x.leaves(st, v, sub)
	for k, l := range flatten(sub) {
		name := "[]" + shortT(s.Elem) + pre + l.path
		markPtr(name, sub, l)
		h := st.hget(name, arrSort(arrSort(l.sort)))
		st.hset(name, Store(h, s.Id, Store(Select(h, s.Id), idx, ls[k])))
	}
}

// elemPtr gives a pointer to element i of s.
func (x *exec) elemPtr(st *State, s *Slice, i *Term) Ptr {
	if s.Arr != nil {
		if i.isConst() {
			k := int(i.ival.Int64())
			if k >= 0 && k < s.N {
				if m, ok := st.cells[s.Arr].(moved); ok {
					return Ptr{Ref: m.ref, T: m.T, Path: []int{s.Lo + k}}
				}
				return Ptr{Cell: s.Arr, Path: []int{s.Lo + k}, T: s.Arr.T}
			}
			st.assume(tFalse)
			return Ptr{Cell: s.Arr, Path: []int{0}, T: s.Arr.T}
		}
		r := x.reifySlice(st, s)
		st.assume(Le(I(0), i))
		st.assume(Lt(i, r.Len))
		return Ptr{Sl: r, Idx: Add(r.Off, i), T: s.Elem}
	}
	st.assume(Le(I(0), i)) // an out of range index panics
	st.assume(Lt(i, s.Len))
	return Ptr{Sl: s, Idx: Add(s.Off, i), T: s.Elem}
}

func (x *exec) lenOf(s *Slice) *Term {
	if s.Arr != nil {
		return I(int64(s.N))
	}
	return s.Len
}

func sortedKeys(m map[string]*Term) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// ---- key ropes (bytes built from segments) ----

type Seg struct {
	kind string // "lit", "u64", "u8", "var"
	lit  []byte
	t    *Term // value of u64/u8, code of var
	n    *Term // length in bytes
}

type Rope struct{ S []Seg }

func ropeCode(r Rope) *Term {
	if len(r.S) == 1 && r.S[0].kind == "var" {
		return r.S[0].t
	}
	if len(r.S) == 0 {
		return I(0)
	}
	var as []*Term
	name := "rope"
	for _, s := range r.S {
		switch s.kind {
		case "lit":
			name += fmt.Sprintf(".x%x", s.lit)
		default:
			name += "." + s.kind
			as = append(as, s.t)
		}
	}
	return UF(name, SInt, as...)
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }
