package main

// Byte strings that are built from known parts: store keys, addresses, and
// encoded records.

import (
	"fmt"
	"go/types"
	"math/big"
)

// Blob is an encoded record: the bytes codec.MustMarshal returned.
type Blob struct {
	T types.Type
	L []*Term
}

var ropeOf = map[*Term]Rope{} // code -> rope it stands for

func (s Seg) size() *Term {
	switch s.kind {
	case "lit":
		return I(int64(len(s.lit)))
	case "u64":
		return I(8)
	case "u8":
		return I(1)
	}
	return s.n
}

func (r Rope) norm() Rope {
	var out []Seg
	for _, s := range r.S {
		if s.kind == "lit" && len(s.lit) == 0 {
			continue
		}
		if s.kind == "u8" && s.t.isConst() {
			s = Seg{kind: "lit", lit: []byte{byte(s.t.ival.Int64())}}
		}
		if n := len(out); n > 0 && s.kind == "lit" && out[n-1].kind == "lit" {
			out[n-1] = Seg{kind: "lit", lit: append(append([]byte{}, out[n-1].lit...), s.lit...)}
			continue
		}
		out = append(out, s)
	}
	return Rope{out}
}

func (r Rope) length() *Term {
	n := I(0)
	for _, s := range r.S {
		n = Add(n, s.size())
	}
	return n
}

func (x *exec) asRope(st *State, v Val) Rope {
	switch t := v.(type) {
	case Rope:
		return t
	case *Term:
		if t.isConst() && t.ival.Sign() == 0 {
			return Rope{}
		}
		if r, ok := ropeOf[t]; ok {
			return r
		}
		return Rope{[]Seg{{kind: "var", t: t, n: strLen(st, t)}}}
	case *Slice:
		if t.Arr != nil {
			r := Rope{}
			for i := 0; i < t.N; i++ {
				b, ok := x.load(st, x.elemPtr(st, t, I(int64(i)))).(*Term)
				if !ok {
					panic(unsupported("bytes"))
				}
				r.S = append(r.S, Seg{kind: "u8", t: b})
			}
			return r.norm()
		}
		if t.NilV {
			return Rope{}
		}
	}
	panic(unsupported(fmt.Sprintf("byte string from %T", v)))
}

// cut splits r at byte offset i.
func (x *exec) cut(st *State, r Rope, i *Term) (a, b Rope, ok bool) {
	off := I(0)
	for k := 0; k <= len(r.S); k++ {
		if off == i || x.entails(st, Eq(off, i)) {
			return Rope{append([]Seg{}, r.S[:k]...)}, Rope{append([]Seg{}, r.S[k:]...)}, true
		}
		if k == len(r.S) {
			break
		}
		s := r.S[k]
		if s.kind == "lit" {
			for j := 1; j < len(s.lit); j++ {
				if x.entails(st, Eq(Add(off, I(int64(j))), i)) {
					a = Rope{append(append([]Seg{}, r.S[:k]...), Seg{kind: "lit", lit: s.lit[:j]})}
					b = Rope{append([]Seg{{kind: "lit", lit: s.lit[j:]}}, r.S[k+1:]...)}
					return a, b, true
				}
			}
		}
		off = Add(off, s.size())
	}
	return
}

func (x *exec) ropeAt(st *State, fr *Frame, r Rope, i *Term, p string) Val {
	x.safe(st, fr, And(Le(I(0), i), Lt(i, r.length())), "index out of range at "+p)
	st.assume(And(Le(I(0), i), Lt(i, r.length())))
	_, b, ok := x.cut(st, r, i)
	if ok && len(b.S) > 0 {
		switch s := b.S[0]; s.kind {
		case "lit":
			return I(int64(s.lit[0]))
		case "u8":
			st.assume(And(Le(I(0), s.t), Le(s.t, I(255))))
			return s.t
		}
	}
	v := UF("byteAt", SInt, ropeCode(r), i)
	st.assume(And(Le(I(0), v), Le(v, I(255))))
	return v
}

func (x *exec) ropeSlice(st *State, fr *Frame, r Rope, i, j *Term, p string) Val {
	n := r.length()
	if j == nil {
		j = n
	}
	x.safe(st, fr, And(Le(I(0), i), Le(i, j), Le(j, n)), "slice bounds at "+p)
	st.assume(And(Le(I(0), i), Le(i, j), Le(j, n)))
	_, b, ok1 := x.cut(st, r, i)
	if ok1 {
		if a, _, ok := x.cut(st, b, Sub(j, i)); ok {
			return a.norm()
		}
	}
	c := UF("subBytes", SInt, ropeCode(r), i, j)
	st.assume(Eq(UF("strLen", SInt, c), Sub(j, i)))
	return Rope{[]Seg{{kind: "var", t: c, n: Sub(j, i)}}}
}

func (x *exec) ropeEq(st *State, a, b Rope) *Term {
	a, b = a.norm(), b.norm()
	if len(a.S) == len(b.S) {
		t := tTrue
		for i := range a.S {
			p, q := a.S[i], b.S[i]
			if p.kind != q.kind {
				t = nil
				break
			}
			if p.kind == "lit" {
				if string(p.lit) != string(q.lit) {
					t = nil
					if len(p.lit) == len(q.lit) {
						return tFalse
					}
					break
				}
				continue
			}
			t = And(t, Eq(p.t, q.t))
		}
		if t != nil {
			// equal parts make equal bytes; the converse needs delimited parts
			for _, s := range a.S {
				if s.kind == "var" && len(a.S) > 1 {
					return UF("bytesEq", SBool, ropeCode(a), ropeCode(b))
				}
			}
			return t
		}
	}
	return Eq(ropeCode(a), ropeCode(b))
}

func (x *exec) newByteBuf(st *State, n int) Val {
	r := Rope{}
	if n > 0 {
		r.S = append(r.S, Seg{kind: "lit", lit: make([]byte, n)})
	}
	return r
}

func (x *exec) newSymBuf(st *State, n *Term) Val {
	if x.entails(st, Eq(n, I(0))) {
		return Rope{}
	}
	panic(unsupported("make([]byte, n)"))
}

func (x *exec) bytesToString(st *State, v Val) Val {
	switch t := v.(type) {
	case *Term:
		return t
	case Rope:
		t = t.norm()
		if len(t.S) == 0 {
			return I(0)
		}
		if len(t.S) == 1 && t.S[0].kind == "lit" {
			return strConst(string(t.S[0].lit))
		}
		c := ropeCode(t)
		if len(t.S) > 1 {
			ropeOf[c] = t
		}
		return c
	}
	panic(unsupported("bytes to string"))
}

// allRopeLit gives the bytes of a constant rope.
func ropeLit(r Rope) (string, bool) {
	s := ""
	for _, p := range r.norm().S {
		if p.kind != "lit" {
			return "", false
		}
		s += string(p.lit)
	}
	return s, true
}

func initRope() {
	u64 := func(x *exec, st *State, a []Val) []outcome {
		return ret(st, Rope{[]Seg{{kind: "u64", t: a[0].(*Term)}}})
	}
	reg(sdkT+"Uint64ToBigEndian", u64)
	reg(sdkT+"BigEndianToUint64", func(x *exec, st *State, a []Val) []outcome {
		r := x.asRope(st, a[0]).norm()
		if len(r.S) == 0 {
			return ret(st, I(0))
		}
		if len(r.S) == 1 && r.S[0].kind == "u64" {
			return ret(st, r.S[0].t)
		}
		if s, ok := ropeLit(r); ok && len(s) == 8 {
			return ret(st, IB(new(big.Int).SetBytes([]byte(s))))
		}
		v := UF("beUint64", SInt, ropeCode(r))
		st.assume(And(Le(I(0), v), Lt(v, IB(pow2(64)))))
		return ret(st, v)
	})
	lp := func(x *exec, st *State, a []Val) []outcome {
		r := x.asRope(st, a[0])
		n := r.length()
		var out []outcome
		if x.feasible(st, Eq(n, I(0))) {
			s := st.clone()
			s.assume(Eq(n, I(0)))
			out = append(out, ret(s, Rope{})...)
		}
		st.assume(And(Gt(n, I(0)), Le(n, I(255))))
		if x.feasible(st, tTrue) {
			out = append(out, ret(st, Rope{append([]Seg{{kind: "u8", t: n}}, r.S...)}.norm())...)
		}
		return out
	}
	reg("github.com/cosmos/cosmos-sdk/types/address.MustLengthPrefix", lp)
	reg("bytes.HasPrefix", func(x *exec, st *State, a []Val) []outcome {
		r, p := x.asRope(st, a[0]), x.asRope(st, a[1])
		if h, _, ok := x.cut(st, r, p.length()); ok {
			return ret(st, x.ropeEq(st, h, p))
		}
		return ret(st, UF("hasPrefix", SBool, ropeCode(r), ropeCode(p)))
	})
	reg("bytes.Equal", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, x.ropeEq(st, x.asRope(st, a[0]), x.asRope(st, a[1])))
	})
}
