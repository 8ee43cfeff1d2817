package main

// The module's key-value store.  Keys are byte strings made of known parts
// (see rope.go); a key's first byte selects its family, whose layout is
// declared here and checked against every key the code builds.  The state of a
// family is one "present" array and one array per field of the stored record.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"
)

type family struct {
	name  string
	pre   byte
	lit   string // whole-key literal for the counters
	shape string // one letter per part: u = 8 byte number, L = length-prefixed bytes
	pkg   string
	typ   string // "" = presence only, "raw" = an 8 byte number
}

var rawLeaf = []Leaf{{"#v", SInt}}

const tp = "defund/x/dex/types"
const gg = "github.com/gogo/protobuf/types"

var families = []*family{
	{"LastPairId", 0xa0, "", "", gg, "UInt64Value"},
	{"LastPoolId", 0xa1, "", "", gg, "UInt64Value"},
	{"Pair", 0xa5, "", "u", tp, "Pair"},
	{"PairIndex", 0xa6, "", "LL", gg, "UInt64Value"},
	{"PairsByDenoms", 0xa7, "", "LLu", "", ""},
	{"Pool", 0xab, "", "u", tp, "Pool"},
	{"PoolByReserve", 0xac, "", "L", gg, "UInt64Value"},
	{"PoolsByPair", 0xad, "", "uu", "", ""},
	{"DepositRequest", 0xb0, "", "uu", tp, "DepositRequest"},
	{"DepositIndex", 0xb4, "", "Luu", "", ""},
	{"WithdrawRequest", 0xb1, "", "uu", tp, "WithdrawRequest"},
	{"WithdrawIndex", 0xb5, "", "Luu", "", ""},
	{"Order", 0xb2, "", "uu", tp, "Order"},
	{"OrderIndex", 0xb3, "", "Luu", "", ""},
	{"NumMM", 0xb7, "", "Lu", "", "raw"},
}

func famByName(n string) *family {
	for _, f := range families {
		if f.name == n {
			return f
		}
	}
	return nil
}

func (x *exec) famType(f *family) types.Type {
	if f.typ == "" || f.typ == "raw" {
		return nil
	}
	return x.P.typ(f.pkg, f.typ)
}

// ---- records ----

func recFlat(t types.Type) []Leaf {
	t = types.Unalias(t)
	if isNum(t) {
		return []Leaf{{"#v", SInt}}
	}
	if isBag(t) {
		return []Leaf{{"#bag", arrSort(SInt)}}
	}
	if isBytes(t) {
		return nil
	}
	if isOpaqueNamed(t) {
		return []Leaf{{"", SInt}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Leaf{{"", SBool}}
		}
		return []Leaf{{"", SInt}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if strings.HasPrefix(f.Name(), "XXX_") {
				continue
			}
			for _, l := range recFlat(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.path, l.sort})
			}
		}
		return out
	case *types.Pointer:
		if isNum(u.Elem()) {
			return []Leaf{{"#nilp", SBool}, {"#v", SInt}}
		}
	}
	panic(unsupported("stored record field of type " + t.String()))
}

func (x *exec) recEnc(st *State, v Val, t types.Type) []*Term {
	t = types.Unalias(t)
	if isNum(t) {
		n := v.(Num)
		return []*Term{Ite(n.Nil, I(0), n.V)}
	}
	if isBag(t) {
		return []*Term{x.toBag(st, v).A}
	}
	if isBytes(t) {
		return nil
	}
	if isOpaqueNamed(t) {
		return []*Term{v.(*Term)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []*Term{v.(*Term)}
	case *types.Struct:
		s := v.(*Struct)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			if strings.HasPrefix(u.Field(i).Name(), "XXX_") {
				continue
			}
			out = append(out, x.recEnc(st, s.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Pointer:
		p := v.(Ptr)
		if p.Ref != nil && p.Ref.isConst() && p.Ref.ival.Sign() == 0 && p.Cell == nil {
			return []*Term{tTrue, I(0)}
		}
		nilp := tFalse
		if p.Ref != nil && len(p.Path) == 0 {
			nilp = Eq(p.Ref, I(0))
		}
		var n Num
		if p.Cell != nil {
			n = x.load(st, p).(Num)
		} else {
			s2 := st.clone() // reading through a possibly nil pointer only when it is not
			n = x.load(s2, p).(Num)
		}
		return []*Term{nilp, Ite(nilp, I(0), Ite(n.Nil, I(0), n.V))}
	}
	panic(unsupported("stored record field of type " + t.String()))
}

func (x *exec) recDec(st *State, t types.Type, ls []*Term, spec bool) (Val, []*Term) {
	t = types.Unalias(t)
	if isNum(t) {
		return Num{tFalse, ls[0]}, ls[1:]
	}
	if isBag(t) {
		b := &Bag{A: ls[0]}
		if ls[0] == zeroBagA {
			b.Known = true
		}
		return b, ls[1:]
	}
	if isBytes(t) {
		return I(0), ls
	}
	if isOpaqueNamed(t) {
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi := intRange(u); lo != nil && !ls[0].isConst() && len(freeBounds(ls[0])) == 0 {
			st.assume(Le(IB(lo), ls[0]))
			st.assume(Le(ls[0], IB(hi)))
		}
		return ls[0], ls[1:]
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			if strings.HasPrefix(u.Field(i).Name(), "XXX_") {
				s.F = append(s.F, zeroVal(u.Field(i).Type()))
				continue
			}
			var v Val
			v, ls = x.recDec(st, u.Field(i).Type(), ls, spec)
			s.F = append(s.F, v)
		}
		return s, ls
	case *types.Pointer:
		if spec {
			return Num{ls[0], ls[1]}, ls[2:]
		}
		if ls[0] == tTrue {
			return Ptr{Ref: I(0), T: u.Elem()}, ls[2:]
		}
		if ls[0] == tFalse {
			c := newCell("stored", u.Elem())
			st.cells[c] = Num{tFalse, ls[1]}
			return Ptr{Cell: c, T: u.Elem()}, ls[2:]
		}
		r := newRef()
		x.heapStore(st, r, u.Elem(), nil, Num{tFalse, ls[1]})
		return Ptr{Ref: Ite(ls[0], I(0), r), T: u.Elem()}, ls[2:]
	}
	panic(unsupported("stored record field of type " + t.String()))
}

// ---- keys ----

func kvHas(f *family) string          { return "kv." + f.name + "#has" }
func kvLeaf(f *family, l Leaf) string { return "kv." + f.name + l.path }

func (f *family) key(args ...*Term) *Term {
	switch len(args) {
	case 0:
		return I(0)
	case 1:
		return args[0]
	}
	k := UF("key."+f.name, SInt, args...)
	if !factDone[k.id] && len(freeBounds(k)) == 0 {
		factDone[k.id] = true
		var fs []*Term
		for i, a := range args {
			fs = append(fs, Eq(UF(fmt.Sprintf("part%d.%s", i, f.name), SInt, k), a))
		}
		addFact(k, And(fs...))
	} else if !factDone[k.id] {
		factDone[k.id] = true
		var vs []*Term
		for i := range args {
			vs = append(vs, Bound(fmt.Sprintf("key.%s.%d", f.name, i)))
		}
		g := UF("key."+f.name, SInt, vs...)
		var fs []*Term
		for i, a := range vs {
			fs = append(fs, Eq(UF(fmt.Sprintf("part%d.%s", i, f.name), SInt, g), a))
		}
		addFact(k, Forall(vs, And(fs...), []*Term{g}))
	}
	return k
}

// part i of a key
func (f *family) part(k *Term, i int) *Term {
	if len(f.shape) == 1 {
		return k
	}
	if k.op == "uf" && k.name == "key."+f.name {
		return k.args[i]
	}
	return UF(fmt.Sprintf("part%d.%s", i, f.name), SInt, k)
}

// keyOf recognises a key (or a key prefix ending at a part boundary).
func (x *exec) keyOf(st *State, r Rope) (f *family, args []*Term, full bool) {
	r = r.norm()
	bad := func(why string) {
		if d := os.Getenv("GOVC_DUMPDIR"); d != "" {
			os.WriteFile(d+"/key.smt2", []byte(smtQuery(st.pc)), 0o644)
		}
		panic(unsupported("store key: " + why))
	}
	if len(r.S) == 0 || r.S[0].kind != "lit" {
		bad("unknown prefix")
	}
	for _, c := range families {
		if c.pre == r.S[0].lit[0] {
			f = c
		}
	}
	if f == nil {
		bad(fmt.Sprintf("unknown prefix %x", r.S[0].lit))
	}
	segs := append([]Seg{}, r.S...)
	segs[0] = Seg{kind: "lit", lit: segs[0].lit[1:]}
	segs = Rope{segs}.norm().S
	for _, p := range f.shape {
		if len(segs) == 0 {
			return f, args, false
		}
		switch p {
		case 'u':
			if segs[0].kind == "u64" {
				args = append(args, segs[0].t)
				segs = segs[1:]
				continue
			}
			if segs[0].kind == "lit" && len(segs[0].lit) >= 8 {
				bad("literal number")
			}
			bad("part of family " + f.name + " is not an 8-byte number")
		case 'L':
			var n *Term
			switch {
			case segs[0].kind == "u8":
				n = segs[0].t
				segs = segs[1:]
			case segs[0].kind == "lit":
				n = I(int64(segs[0].lit[0]))
				segs = Rope{append([]Seg{{kind: "lit", lit: segs[0].lit[1:]}}, segs[1:]...)}.norm().S
			default:
				bad("part of family " + f.name + " has no length byte")
			}
			if len(segs) == 0 {
				bad("part of family " + f.name + " ends after its length byte")
			}
			switch segs[0].kind {
			case "var":
				if !x.entails(st, Eq(n, segs[0].n)) {
					bad("length byte of " + f.name + " may differ from the length of what follows")
				}
				args = append(args, segs[0].t)
				segs = segs[1:]
			case "lit":
				if !n.isConst() || n.ival.Int64() > int64(len(segs[0].lit)) {
					bad("literal part")
				}
				k := int(n.ival.Int64())
				args = append(args, strConst(string(segs[0].lit[:k])))
				segs = Rope{append([]Seg{{kind: "lit", lit: segs[0].lit[k:]}}, segs[1:]...)}.norm().S
			default:
				bad("length-prefixed part of family " + f.name)
			}
		}
	}
	if len(segs) != 0 {
		bad("bytes after the last part of family " + f.name)
	}
	return f, args, true
}

func (x *exec) keyRope(st *State, f *family, args []*Term) Rope {
	r := Rope{[]Seg{{kind: "lit", lit: []byte{f.pre}}}}
	for i, p := range f.shape {
		switch p {
		case 'u':
			st.assume(And(Le(I(0), args[i]), Lt(args[i], IB(pow2(64)))))
			r.S = append(r.S, Seg{kind: "u64", t: args[i]})
		case 'L':
			n := strLen(st, args[i])
			st.assume(And(Le(I(1), n), Le(n, I(255))))
			r.S = append(r.S, Seg{kind: "u8", t: n}, Seg{kind: "var", t: args[i], n: n})
		}
	}
	return r.norm()
}

func (x *exec) fullKey(st *State, v Val) (*family, *Term) {
	f, args, full := x.keyOf(st, x.asRope(st, v))
	if !full {
		panic(unsupported("store access with a partial key of family " + f.name))
	}
	return f, f.key(args...)
}

func (x *exec) famLeaves(f *family) []Leaf {
	if f.typ == "raw" {
		return rawLeaf
	}
	if t := x.famType(f); t != nil {
		return recFlat(t)
	}
	return nil
}

func (x *exec) rawVal(st *State, v *Term) Rope {
	st.assume(And(Le(I(0), v), Lt(v, IB(pow2(64)))))
	return Rope{[]Seg{{kind: "u64", t: v}}}
}

func (x *exec) kvRead(st *State, f *family, k *Term) *Blob {
	b := &Blob{T: x.famType(f)}
	if b.T == nil {
		return b
	}
	for _, l := range recFlat(b.T) {
		b.L = append(b.L, Select(st.hget(kvLeaf(f, l), arrSort(l.sort)), k))
	}
	return b
}

func (x *exec) kvSet(st *State, f *family, k *Term, v Val) {
	if h := st.hget(kvHas(f), arrSort(SBool)); h.op == "store" || x.famType(f) == nil || x.feasible(st, Not(Select(h, k))) {
		st.hset(kvHas(f), Store(h, k, tTrue))
	}
	t := x.famType(f)
	bl, ok := v.(Blob)
	if f.typ == "raw" {
		r := x.asRope(st, v).norm()
		if len(r.S) != 1 || r.S[0].kind != "u64" {
			panic(unsupported("value stored under family " + f.name + " is not an 8 byte number"))
		}
		st.hset(kvLeaf(f, rawLeaf[0]), Store(st.hget(kvLeaf(f, rawLeaf[0]), arrSort(SInt)), k, r.S[0].t))
		return
	}
	if t == nil {
		if ok {
			panic(unsupported("record stored under an index key of family " + f.name))
		}
		return
	}
	if !ok || !types.Identical(bl.T, t) {
		panic(unsupported("value of another type stored under family " + f.name))
	}
	// a record written back under the key it was read from keeps its other fields
	for i, l := range recFlat(t) {
		v := bl.L[i]
		if v.op == "select" && v.args[1] != k && v.args[0] == st.hget(kvLeaf(f, l), arrSort(l.sort)) {
			if !x.feasible(st, Ne(k, v.args[1])) {
				k = v.args[1]
			}
			break
		}
	}
	for i, l := range recFlat(t) {
		h := st.hget(kvLeaf(f, l), arrSort(l.sort))
		st.hset(kvLeaf(f, l), Store(h, k, bl.L[i]))
	}
}

// ---- iterators ----

type iterVal struct {
	f       *family
	args    []*Term
	visited *Cell
	cur     *Cell
	snap    map[string]*Term
}

var govcSet = types.NewNamed(types.NewTypeName(0, nil, "govcSet", nil), types.NewStruct(nil, nil), nil)

func (x *exec) matches(it *iterVal, k *Term) *Term {
	t := tTrue
	for i, a := range it.args {
		t = And(t, Eq(it.f.part(k, i), a))
	}
	return t
}

func keySet(f *family, has *Term, args []*Term) *Term {
	return UF(fmt.Sprintf("keys%d.%s", len(args), f.name), arrSort(SBool), append([]*Term{has}, args...)...)
}

func initStore() {
	initCodec()
	reg("github.com/cosmos/cosmos-sdk/runtime.KVStoreAdapter", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, Iface{Ref: Sym("kvstore", SInt), T: nil})
	})
	reg("(cosmossdk.io/core/store.KVStoreService).OpenKVStore", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, Iface{Ref: Sym("kvstore", SInt), T: nil})
	})
	kv := "(cosmossdk.io/store/types.KVStore)."
	reg(kv+"Get", func(x *exec, st *State, a []Val) []outcome {
		f, k := x.fullKey(st, a[1])
		has := Select(st.hget(kvHas(f), arrSort(SBool)), k)
		var out []outcome
		if x.feasible(st, Not(has)) {
			s := st.clone()
			s.assume(Not(has))
			out = append(out, ret(s, I(0))...)
		}
		if x.feasible(st, has) {
			st.assume(has)
			if f.typ == "raw" {
				out = append(out, ret(st, x.rawVal(st, Select(st.hget(kvLeaf(f, rawLeaf[0]), arrSort(SInt)), k)))...)
			} else {
				out = append(out, ret(st, *x.kvRead(st, f, k))...)
			}
		}
		if out == nil {
			out = []outcome{}
		}
		return out
	})
	reg(kv+"Has", func(x *exec, st *State, a []Val) []outcome {
		f, k := x.fullKey(st, a[1])
		return ret(st, Select(st.hget(kvHas(f), arrSort(SBool)), k))
	})
	reg(kv+"Set", func(x *exec, st *State, a []Val) []outcome {
		f, k := x.fullKey(st, a[1])
		x.kvSet(st, f, k, a[2])
		return ret(st)
	})
	reg(kv+"Delete", func(x *exec, st *State, a []Val) []outcome {
		f, k := x.fullKey(st, a[1])
		h := st.hget(kvHas(f), arrSort(SBool))
		st.hset(kvHas(f), Store(h, k, tFalse))
		return ret(st)
	})
	iter := func(x *exec, st *State, a []Val) []outcome {
		f, args, _ := x.keyOf(st, x.asRope(st, a[1]))
		it := &iterVal{f: f, args: args, snap: map[string]*Term{}}
		it.snap["has"] = st.hget(kvHas(f), arrSort(SBool))
		for _, l := range x.famLeaves(f) {
			it.snap[l.path] = st.hget(kvLeaf(f, l), arrSort(l.sort))
		}
		it.visited = newCell("visited", govcSet)
		it.cur = newCell("cursor", types.Typ[types.UntypedInt])
		st.cells[it.visited] = ConstArr(arrSort(SBool), tFalse)
		st.cells[it.cur] = I(-1)
		return ret(st, Iface{Ref: Fresh("iter", SInt), V: it})
	}
	reg("cosmossdk.io/store/types.KVStorePrefixIterator", iter)
	reg("cosmossdk.io/store/types.KVStoreReversePrefixIterator", iter)
	get := func(v Val) *iterVal {
		if i, ok := v.(Iface); ok {
			if it, ok := i.V.(*iterVal); ok {
				return it
			}
		}
		panic(unsupported("iterator"))
	}
	for _, p := range []string{"(cosmossdk.io/store/types.Iterator).", "(github.com/cosmos/cosmos-db.Iterator)."} {
		reg(p+"Valid", func(x *exec, st *State, a []Val) []outcome {
			it := get(a[0])
			vis := st.cells[it.visited].(*Term)
			var out []outcome
			k := Bound("ik")
			has := mk("select", "", nil, SBool, it.snap["has"], k)
			s := st.clone()
			in := mk("select", "", nil, SBool, vis, k)
			s.assume(Forall([]*Term{k}, Eq(And(x.matches(it, k), has), in), []*Term{has}, []*Term{in}))
			s.assume(Eq(vis, keySet(it.f, it.snap["has"], it.args)))
			out = append(out, ret(s, tFalse)...)
			var as []*Term
			for i := range it.f.shape {
				if i < len(it.args) {
					as = append(as, it.args[i])
				} else {
					as = append(as, Fresh(fmt.Sprintf("cur%d", i), SInt))
				}
			}
			ck := it.f.key(as...)
			x.keyRope(st, it.f, as)
			st.assume(And(Select(it.snap["has"], ck), Not(Select(vis, ck))))
			st.setCell(it.cur, ck)
			if x.feasible(st, tTrue) {
				out = append(out, ret(st, tTrue)...)
			}
			return out
		})
		reg(p+"Next", func(x *exec, st *State, a []Val) []outcome {
			it := get(a[0])
			vis := st.cells[it.visited].(*Term)
			st.setCell(it.visited, Store(vis, st.cells[it.cur].(*Term), tTrue))
			return ret(st)
		})
		reg(p+"Key", func(x *exec, st *State, a []Val) []outcome {
			it := get(a[0])
			k := st.cells[it.cur].(*Term)
			var as []*Term
			for i := range it.f.shape {
				as = append(as, it.f.part(k, i))
			}
			return ret(st, x.keyRope(st, it.f, as))
		})
		reg(p+"Value", func(x *exec, st *State, a []Val) []outcome {
			it := get(a[0])
			k := st.cells[it.cur].(*Term)
			b := Blob{T: x.famType(it.f)}
			if it.f.typ == "raw" {
				return ret(st, x.rawVal(st, Select(it.snap["#v"], k)))
			}
			if b.T != nil {
				for _, l := range recFlat(b.T) {
					b.L = append(b.L, Select(it.snap[l.path], k))
				}
			}
			return ret(st, b)
		})
		reg(p+"Close", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.nilErr()) })
		reg(p+"Error", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.nilErr()) })
	}
}

func initCodec() {
	ptrOf := func(v Val) (Ptr, types.Type) {
		i, ok := v.(Iface)
		if ok && i.Dyn != nil {
			if p, ok := i.V.(Ptr); ok {
				_, t := subPath(p.T, p.Path)
				return p, t
			}
		}
		panic(unsupported("codec argument"))
	}
	for _, c := range []string{"(github.com/cosmos/cosmos-sdk/codec.BinaryCodec).", "(github.com/cosmos/cosmos-sdk/codec.Codec)."} {
		enc := func(x *exec, st *State, a []Val) Val {
			p, t := ptrOf(a[1])
			return Blob{T: t, L: x.recEnc(st, x.load(st, p), t)}
		}
		dec := func(x *exec, st *State, a []Val) {
			p, t := ptrOf(a[2])
			b, ok := a[1].(Blob)
			if !ok || b.T == nil || !types.Identical(b.T, t) {
				panic(unsupported("decoding bytes that are not an encoded " + t.String()))
			}
			v, _ := x.recDec(st, t, b.L, false)
			x.store(st, p, v)
		}
		reg(c+"MustMarshal", func(x *exec, st *State, a []Val) []outcome { return ret(st, enc(x, st, a)) })
		reg(c+"Marshal", func(x *exec, st *State, a []Val) []outcome { return ret(st, enc(x, st, a), x.nilErr()) })
		reg(c+"MustUnmarshal", func(x *exec, st *State, a []Val) []outcome { dec(x, st, a); return ret(st) })
		reg(c+"Unmarshal", func(x *exec, st *State, a []Val) []outcome { dec(x, st, a); return ret(st, x.nilErr()) })
	}
}

// ---- specification functions ----

func (e *sEnv) famArg(ex ast.Expr) *family {
	l, ok := ex.(*ast.BasicLit)
	if !ok {
		e.fail("record family expected")
	}
	f := famByName(strings.Trim(l.Value, `"`))
	if f == nil {
		e.fail("unknown record family %s", l.Value)
	}
	return f
}

func (e *sEnv) addrT(ex ast.Expr) *Term {
	v := e.eval(ex)
	if r, ok := v.(Rope); ok {
		return ropeCode(r.norm())
	}
	return e.toTerm(v)
}

func (e *sEnv) keyArgs(f *family, args []ast.Expr) *Term {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, e.addrT(a))
	}
	if len(ts) == 1 && len(f.shape) > 1 { // a whole key
		return ts[0]
	}
	if len(ts) != len(f.shape) {
		e.fail("family %s has %d key parts", f.name, len(f.shape))
	}
	return f.key(ts...)
}

func (e *sEnv) cosmosCall(name string, A []ast.Expr) Val {
	x, st := e.x, e.st
	switch name {
	case "has":
		f := e.famArg(A[0])
		return Select(st.hget(kvHas(f), arrSort(SBool)), e.keyArgs(f, A[1:]))
	case "rec":
		f := e.famArg(A[0])
		if f.typ == "raw" {
			return Select(st.hget(kvLeaf(f, rawLeaf[0]), arrSort(SInt)), e.keyArgs(f, A[1:]))
		}
		b := x.kvRead(st, f, e.keyArgs(f, A[1:]))
		v, _ := x.recDec(st, b.T, b.L, true)
		return v
	case "kvref": // key(fam, parts...)
		f := e.famArg(A[0])
		return e.keyArgs(f, A[1:])
	case "iskey", "isprefix": // iskey("Family", bytes, parts...): the bytes are that key of the family
		f := e.famArg(A[0])
		g, args, full := x.keyOf(st, x.asRope(st, e.eval(A[1])))
		if g != f || full != (name == "iskey") || len(args) != len(A)-2 {
			return tFalse
		}
		t := tTrue
		for i, a := range A[2:] {
			t = And(t, Eq(args[i], e.addrT(a)))
		}
		return t
	case "part":
		f := e.famArg(A[0])
		return f.part(e.term(A[1]), int(e.term(A[2]).ival.Int64()))
	case "bal":
		h := st.hget(hBal, balSort)
		r := Select(Select(h, e.addrT(A[0])), e.term(A[1]))
		if len(freeBounds(r)) == 0 {
			st.assume(Ge(r, I(0)))
		}
		return r
	case "supply":
		r := Select(st.hget(hSup, arrSort(SInt)), e.term(A[0]))
		if len(freeBounds(r)) == 0 {
			st.assume(Ge(r, I(0)))
		}
		return r
	case "spendable":
		r := Select(x.spendable(st, e.addrT(A[0])), e.term(A[1]))
		return r
	case "param":
		k := strings.Trim(A[0].(*ast.BasicLit).Value, `"`)
		t := x.P.typ(tp, "Params")
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == k {
				return x.paramVal(st, k, u.Field(i).Type())
			}
		}
		e.fail("no parameter %s", k)
	case "addr": // account of a bech32 string
		return addrOfStr(e.term(A[0]))
	case "bech32":
		return strOfAddr(e.addrT(A[0]))
	case "validaddr":
		return UF("validBech32", SBool, e.term(A[0]))
	case "validdenom":
		return validDenom(e.term(A[0]))
	case "blocktime":
		return Sym("blocktime", SInt)
	case "blockheight":
		return Sym("blockheight", SInt)
	case "module":
		return moduleAddr(e.term(A[0]))
	case "derived":
		var ts []*Term
		for _, a := range A {
			ts = append(ts, e.addrT(a))
		}
		return derivedAddr(ts...)
	case "coin":
		return x.bagOf([]Val{coinVal(x.coinT(), e.term(A[0]), e.term(A[1]))})
	case "coins": // union
		b := x.toBag(st, e.eval(A[0]))
		for _, a := range A[1:] {
			b = x.bagCombine(st, b, x.toBag(st, e.eval(a)), 1)
		}
		return b
	case "visited":
		f := e.famArg(A[0])
		it := x.lastIter(e, f)
		return Select(st.cells[it.visited].(*Term), e.keyArgs(f, A[1:]))
	case "visitedset": // the keys an iterator has passed, as a set
		return st.cells[x.lastIter(e, e.famArg(A[0])).visited].(*Term)
	case "keys": // keys("Fam", parts...): the set of the stored keys that begin with these parts
		f := e.famArg(A[0])
		var ts []*Term
		for _, a := range A[1:] {
			ts = append(ts, e.addrT(a))
		}
		return keySet(f, st.hget(kvHas(f), arrSort(SBool)), ts)
	case "cnt": // cnt(k, set, pred): how many keys of the set satisfy pred
		set := e.term(A[1])
		at := func(k *Term) *Term {
			n := *e
			n.vars = map[string]Val{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			n.vars[A[0].(*ast.Ident).Name] = k
			return Ite(n.boolean(A[2]), I(1), I(0))
		}
		id := fmt.Sprintf("cnt!%d", at(Sym("cnt_k", SInt)).id)
		F := func(s *Term) *Term { return UF(id, SInt, s) }
		r := F(set)
		st.assume(Ge(r, I(0)))
		st.assume(Eq(F(ConstArr(arrSort(SBool), tFalse)), I(0)))
		for s := set; s.op == "store"; s = s.args[0] {
			st.assume(Imp(And(Not(Select(s.args[0], s.args[1])), Eq(s.args[2], tTrue)), Eq(F(s), Add(F(s.args[0]), at(s.args[1])))))
			st.assume(Ge(F(s.args[0]), I(0)))
		}
		return r
	case "snaphas":
		f := e.famArg(A[0])
		return Select(x.lastIter(e, f).snap["has"], e.keyArgs(f, A[1:]))
	case "moves": // moves(from, to, coins, ...): every balance is the old one moved by these transfers
		o := e.with(e.old)
		h, h0 := st.hget(hBal, balSort), e.old.hget(hBal, balSort)
		freshN++
		a, d := Bound(fmt.Sprintf("ma%d", freshN)), Bound(fmt.Sprintf("md%d", freshN))
		sel := func(h *Term) *Term {
			return mk("select", "", nil, SInt, mk("select", "", nil, arrSort(SInt), h, a), d)
		}
		want := sel(h0)
		_ = o
		for i := 0; i+2 < len(A); i += 3 {
			b := x.toBag(st, e.eval(A[i+2]))
			n := I(0)
			if b.Known {
				for _, c := range b.Elems {
					s := c.(*Struct)
					n = Add(n, Ite(Eq(d, s.F[0].(*Term)), s.F[1].(Num).V, I(0)))
				}
			} else {
				n = mk("select", "", nil, SInt, b.A, d)
			}
			if !isNilIdent(A[i]) {
				want = Sub(want, Ite(Eq(a, e.addrT(A[i])), n, I(0)))
			}
			if !isNilIdent(A[i+1]) {
				want = Add(want, Ite(Eq(a, e.addrT(A[i+1])), n, I(0)))
			}
		}
		return Forall([]*Term{a, d}, Eq(sel(h), want), []*Term{sel(h)})
	case "unchanged": // unchanged("kv.Pool", ...): these parts of the state are as before
		t := tTrue
		for _, l := range A {
			p := statePrefix(l)
			for _, n := range x.stateNames(st, e.old) {
				if strings.HasPrefix(n, p) {
					t = And(t, Eq(st.hget(n, heapSorts[n]), e.old.hget(n, heapSorts[n])))
				}
			}
		}
		return t
	case "onlychanges": // nothing of the module's state, balances or supply changes but these parts
		t := tTrue
	next:
		for _, n := range x.stateNames(st, e.old) {
			for _, l := range A {
				if strings.HasPrefix(n, statePrefix(l)) {
					continue next
				}
			}
			t = And(t, Eq(st.hget(n, heapSorts[n]), e.old.hget(n, heapSorts[n])))
		}
		return t
	case "others": // others("Order", p, i): all records of the family but this one are as before
		f := e.famArg(A[0])
		t := tTrue
		k := e.keyArgs(f, A[1:])
		freshN++
		b := Bound(fmt.Sprintf("ok%d", freshN))
		for _, n := range x.famNames(f) {
			s := n.sort.elem()
			p := mk("select", "", nil, s, st.hget(n.path, n.sort), b)
			q := mk("select", "", nil, s, e.old.hget(n.path, n.sort), b)
			if p == q {
				continue
			}
			t = And(t, Forall([]*Term{b}, Or(Eq(b, k), Eq(p, q)), []*Term{p}))
		}
		return t
	case "every": // every("Order", k, body): for every key k
		f := e.famArg(A[0])
		freshN++
		b := Bound(fmt.Sprintf("ek%d", freshN))
		n := *e
		n.vars = map[string]Val{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		bs := []*Term{b}
		if len(A) > 3 { // every("OrderIndex", a, p, i, body): for all key parts
			if len(A) != len(f.shape)+2 {
				e.fail("family %s has %d key parts", f.name, len(f.shape))
			}
			bs = nil
			for i := range f.shape {
				v := Bound(fmt.Sprintf("ek%d.%d", freshN, i))
				bs = append(bs, v)
				n.vars[A[i+1].(*ast.Ident).Name] = v
			}
			b = f.key(bs...)
		} else {
			n.vars[A[1].(*ast.Ident).Name] = b
		}
		body := n.boolean(A[len(A)-1])
		p := mk("select", "", nil, SBool, st.hget(kvHas(f), arrSort(SBool)), b)
		pats := [][]*Term{}
		for _, s := range keySelects(body, b) {
			pats = append(pats, []*Term{s})
		}
		if len(pats) == 0 {
			pats = append(pats, []*Term{p})
		}
		return Forall(bs, body, pats...)
	case "sameexcept": // sameexcept(a, b, "Field", ...)
		a, ok1 := e.eval(A[0]).(*Struct)
		b, ok2 := e.eval(A[1]).(*Struct)
		if !ok1 || !ok2 {
			e.fail("sameexcept of records")
		}
		u := a.T.Underlying().(*types.Struct)
		t := tTrue
	fields:
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			if strings.HasPrefix(n, "XXX_") {
				continue
			}
			for _, l := range A[2:] {
				if n == strings.Trim(l.(*ast.BasicLit).Value, `"`) {
					continue fields
				}
			}
			if na, ok := a.F[i].(Num); ok && isNum(u.Field(i).Type()) {
				t = And(t, encEq(na, b.F[i].(Num)))
				continue
			}
			t = And(t, e.valEq(a.F[i], b.F[i]))
		}
		return t
	}
	e.fail("unknown function %s", name)
	return nil
}

func (e *sEnv) valEq(a, b Val) *Term {
	if p, ok := a.(Ptr); ok {
		if _, isN := b.(Num); isN {
			a = e.optNum(p)
		}
	}
	if p, ok := b.(Ptr); ok {
		if _, isN := a.(Num); isN {
			b = e.optNum(p)
		}
	}
	switch va := a.(type) {
	case *Struct:
		vb, ok := b.(*Struct)
		if !ok {
			e.fail("comparison")
		}
		u := va.T.Underlying().(*types.Struct)
		t := tTrue
		for i := range va.F {
			if strings.HasPrefix(u.Field(i).Name(), "XXX_") {
				continue
			}
			if na, ok := va.F[i].(Num); ok && isNum(u.Field(i).Type()) {
				t = And(t, encEq(na, vb.F[i].(Num)))
				continue
			}
			t = And(t, e.valEq(va.F[i], vb.F[i]))
		}
		return t
	case Num:
		vb := b.(Num)
		return And(Eq(va.Nil, vb.Nil), Or(va.Nil, Eq(va.V, vb.V)))
	case *Bag:
		return Eq(va.A, e.x.toBag(e.st, b).A)
	case Ptr:
		return e.valEq(e.optNum(va), e.optNum(b.(Ptr)))
	}
	return Eq(e.addrVal(a), e.addrVal(b))
}

func (e *sEnv) addrVal(v Val) *Term {
	if r, ok := v.(Rope); ok {
		return ropeCode(r.norm())
	}
	return e.toTerm(v)
}

// optNum views a pointer to a number as an optional number.
func (e *sEnv) optNum(p Ptr) Num {
	ls := e.x.recEnc(e.st, p, types.NewPointer(p.T))
	return Num{ls[0], ls[1]}
}

func (x *exec) famNames(f *family) []Leaf {
	out := []Leaf{{kvHas(f), arrSort(SBool)}}
	for _, l := range x.famLeaves(f) {
		out = append(out, Leaf{kvLeaf(f, l), arrSort(l.sort)})
	}
	return out
}

// stateNames: the parts of module state, balances and parameters the two states mention.
func (x *exec) stateNames(a, b *State) []string {
	m := map[string]*Term{}
	for _, s := range []*State{a, b} {
		for n, t := range s.heap {
			if strings.HasPrefix(n, "kv.") || n == hBal || n == hSup || strings.HasPrefix(n, "param.") {
				m[n] = t
			}
		}
	}
	return sortedKeys(m)
}

// lastIter finds the iterator over the family that is in scope.
func (x *exec) lastIter(e *sEnv, f *family) *iterVal {
	if e.lookup != nil {
		if v, ok := e.lookup("iter", e.st); ok {
			if i, ok := v.(Iface); ok {
				if it, ok := i.V.(*iterVal); ok && it.f == f {
					return it
				}
			}
		}
	}
	e.fail("no iterator over %s in scope", f.name)
	return nil
}

// encEq: an unset number is stored as zero.
func encEq(a, b Num) *Term {
	return Eq(Ite(a.Nil, I(0), a.V), Ite(b.Nil, I(0), b.V))
}

func statePrefix(l ast.Expr) string {
	p := strings.Trim(l.(*ast.BasicLit).Value, `"`)
	if strings.HasPrefix(p, "g_") {
		return "$" + p[2:]
	}
	return p
}
