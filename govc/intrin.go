package main

// Contracts assumed for the dependencies (cosmossdk.io/math, math/big, strings,
// errors, fmt, sort, time ...).  Every one that a unit uses is reported.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *exec, st *State, args []Val) []outcome

var intrinsics map[string]func(x *exec, st *State, args []Val) []outcome

func init() {
	intrinsics = map[string]func(x *exec, st *State, args []Val) []outcome{}
	initMath()
	initMisc()
	initCosmos()
	initStore()
}

const mInt = "(cosmossdk.io/math.Int)."
const mDec = "(cosmossdk.io/math.LegacyDec)."
const mpk = "cosmossdk.io/math."

var decP = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
var tP = IB(decP)

func reg(n string, f func(x *exec, st *State, args []Val) []outcome) { intrinsics[n] = f }

// pure registers an intrinsic that yields exactly one value.
func pure(n string, f func(x *exec, st *State, a []Val) Val) {
	var lim *Term
	switch {
	case n == mpk+"NewIntFromBigInt" || n == mDec+"TruncateInt" || n == mDec+"RoundInt":
		lim = IB(pow2(256))
	case strings.HasPrefix(n, mDec):
		switch n[len(mDec):] {
		case "Add", "Sub", "Mul", "MulTruncate", "MulRoundUp", "MulInt", "MulInt64", "Quo", "QuoTruncate", "QuoRoundUp", "Power":
			lim = IB(pow2(315))
		}
	}
	intrinsics[n] = func(x *exec, st *State, a []Val) []outcome {
		r := f(x, st, a)
		if x.ovf != nil && lim != nil {
			if v, ok := r.(Num); ok {
				over := Or(Ge(v.V, lim), Le(v.V, Neg(lim)))
				if x.feasible(st, over) {
					s2 := st.clone()
					s2.assume(over)
					*x.ovf = append(*x.ovf, s2)
				}
			}
		}
		return ret(st, r)
	}
}

func (x *exec) n(st *State, v Val) *Term {
	switch t := v.(type) {
	case Num:
		if t.Nil != tFalse {
			if x.safety && !x.recording {
				x.unit.oblige("no-panic", "nil number used", st, Not(t.Nil))
			}
			st.assume(Not(t.Nil))
		}
		return t.V
	case *Term:
		return t
	case Ptr:
		return x.n(st, x.load(st, t))
	}
	panic(unsupported(fmt.Sprintf("number expected, got %T", v)))
}

func mkN(t *Term) Val { return Num{tFalse, t} }

// total numeric function of integer arguments, with defining facts
func defUF(name string, facts func(r *Term) *Term, args ...*Term) *Term {
	r := UF(name, SInt, args...)
	if !factDone[r.id] {
		factDone[r.id] = true
		addFact(r, facts(r))
	}
	return r
}

func allConst(a ...*Term) bool {
	for _, t := range a {
		if !t.isConst() {
			return false
		}
	}
	return true
}

func bankers(num, den *big.Int) *big.Int { // round half even of num/den, den>0
	neg := num.Sign() < 0
	n := new(big.Int).Abs(num)
	q, r := new(big.Int).QuoRem(n, den, new(big.Int))
	r2 := new(big.Int).Lsh(r, 1)
	switch r2.Cmp(den) {
	case 1:
		q.Add(q, big.NewInt(1))
	case 0:
		if q.Bit(0) == 1 {
			q.Add(q, big.NewInt(1))
		}
	}
	if neg {
		q.Neg(q)
	}
	return q
}

func ceilAbs(num, den *big.Int) *big.Int { // toward +inf when num/den>0, else truncated (QuoRoundUp semantics for >=0)
	q, r := new(big.Int).QuoRem(num, den, new(big.Int))
	if r.Sign() > 0 == (den.Sign() > 0) && r.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}

// decMul: banker's rounded product of two scaled decimals.
func decMul(a, b *Term) *Term {
	if allConst(a, b) {
		return IB(bankers(new(big.Int).Mul(a.ival, b.ival), decP))
	}
	if a.isConst() && a.ival.Cmp(decP) == 0 {
		return b
	}
	if b.isConst() && b.ival.Cmp(decP) == 0 {
		return a
	}
	if b.id < a.id {
		a, b = b, a
	}
	p := Mul(a, b)
	return defUF("decMul", func(r *Term) *Term {
		d := Sub(p, Mul(r, tP))
		h := IB(new(big.Int).Rsh(decP, 1))
		return And(Le(Neg(h), d), Le(d, h), signFacts(a, b, r), Eq(r, UF("decMul", SInt, b, a)))
	}, a, b)
}

func signFacts(a, b, r *Term) *Term {
	return And(
		Imp(And(Ge(a, I(0)), Ge(b, I(0))), Ge(r, I(0))),
		Imp(And(Le(a, I(0)), Ge(b, I(0))), Le(r, I(0))),
		Imp(And(Ge(a, I(0)), Le(b, I(0))), Le(r, I(0))),
		Imp(Or(Eq(a, I(0)), Eq(b, I(0))), Eq(r, I(0))))
}

func decMulTrunc(a, b *Term) *Term {
	if allConst(a, b) {
		return IB(new(big.Int).Quo(new(big.Int).Mul(a.ival, b.ival), decP))
	}
	if a.isConst() && a.ival.Cmp(decP) == 0 {
		return b
	}
	if b.isConst() && b.ival.Cmp(decP) == 0 {
		return a
	}
	if b.id < a.id {
		a, b = b, a
	}
	p := Mul(a, b)
	return defUF("decMulTrunc", func(r *Term) *Term {
		d := Sub(p, Mul(r, tP))
		return And(
			Imp(Ge(p, I(0)), And(Le(I(0), d), Lt(d, tP))),
			Imp(Lt(p, I(0)), And(Le(d, I(0)), Lt(Neg(tP), d))), signFacts(a, b, r), Eq(r, UF("decMulTrunc", SInt, b, a)))
	}, a, b)
}

func decMulUp(a, b *Term) *Term {
	if allConst(a, b) {
		return IB(ceilAbs(new(big.Int).Mul(a.ival, b.ival), decP))
	}
	p := Mul(a, b)
	return defUF("decMulUp", func(r *Term) *Term {
		d := Sub(Mul(r, tP), p)
		return Imp(Ge(p, I(0)), And(Le(I(0), d), Lt(d, tP), Ge(r, I(0))))
	}, a, b)
}

func decQuo(st *State, a, b *Term) *Term {
	st.assume(Ne(b, I(0)))
	if allConst(a, b) && b.ival.Sign() != 0 {
		m := new(big.Int).Mul(a.ival, decP)
		m.Mul(m, decP)
		m.Quo(m, b.ival)
		return IB(bankers(m, decP))
	}
	if b.isConst() && b.ival.Cmp(decP) == 0 {
		return a
	}
	return defUF("decQuo", func(r *Term) *Term {
		pos := func(a, r *Term) *Term {
			aPP2 := Mul(a, IB(new(big.Int).Mul(big.NewInt(2), new(big.Int).Mul(decP, decP))))
			aP2 := Mul(a, IB(new(big.Int).Mul(big.NewInt(2), decP)))
			rb := Mul(r, b)
			// (2r-1)b <= 2aP  and 2aPP < (2rP+P+2) b
			return And(Le(Sub(Mul(I(2), rb), b), aP2),
				Lt(aPP2, Add(Mul(IB(new(big.Int).Mul(big.NewInt(2), decP)), rb), Mul(IB(new(big.Int).Add(decP, big.NewInt(2))), b))),
				Ge(r, I(0)))
		}
		return And(
			Imp(And(Ge(a, I(0)), Gt(b, I(0))), pos(a, r)),
			Imp(And(Lt(a, I(0)), Gt(b, I(0))), pos(Neg(a), Neg(r))),
			Imp(And(Ge(a, I(0)), Lt(b, I(0))), Le(r, I(0))),
			Imp(Eq(a, I(0)), Eq(r, I(0))))
	}, a, b)
}

func decQuoTrunc(st *State, a, b *Term) *Term {
	st.assume(Ne(b, I(0)))
	if allConst(a, b) && b.ival.Sign() != 0 {
		return IB(new(big.Int).Quo(new(big.Int).Mul(a.ival, decP), b.ival))
	}
	if b.isConst() && b.ival.Cmp(decP) == 0 {
		return a
	}
	return defUF("decQuoTrunc", func(r *Term) *Term {
		aP := Mul(a, tP)
		d := Sub(aP, Mul(r, b))
		return And(
			Imp(And(Ge(a, I(0)), Gt(b, I(0))), And(Le(I(0), d), Lt(d, b), Ge(r, I(0)))),
			Imp(And(Lt(a, I(0)), Gt(b, I(0))), And(Le(d, I(0)), Lt(Neg(b), d), Le(r, I(0)))),
			Imp(And(Ge(a, I(0)), Lt(b, I(0))), Le(r, I(0))),
			Imp(Eq(a, I(0)), Eq(r, I(0))))
	}, a, b)
}

func decQuoUp(st *State, a, b *Term) *Term {
	st.assume(Ne(b, I(0)))
	if allConst(a, b) && b.ival.Sign() > 0 && a.ival.Sign() >= 0 {
		m := new(big.Int).Mul(a.ival, decP)
		m.Mul(m, decP)
		m.Quo(m, b.ival)
		return IB(ceilAbs(m, decP))
	}
	if b.isConst() && b.ival.Cmp(decP) == 0 {
		return a
	}
	return defUF("decQuoUp", func(r *Term) *Term {
		aPP := Mul(a, IB(new(big.Int).Mul(decP, decP)))
		rb := Mul(r, b)
		return And(
			Imp(And(Ge(a, I(0)), Gt(b, I(0))), And(
				Lt(aPP, Add(Mul(tP, rb), b)),
				Le(Add(Sub(Mul(tP, rb), Mul(tP, b)), b), Add(aPP, Ite(Eq(r, I(0)), b, I(0)))),
				Ge(r, I(0)))),
			Imp(Eq(a, I(0)), Eq(r, I(0))),
			Imp(And(Le(a, I(0)), Gt(b, I(0))), Le(r, I(0))))
	}, a, b)
}

// truncation toward zero by a positive constant or term
func tdiv(st *State, a, b *Term) *Term {
	st.assume(Ne(b, I(0)))
	if b.isConst() && b.ival.Sign() == 0 {
		return I(0)
	}
	return goDiv(a, b)
}

func truncP(a *Term) *Term {
	// exact multiples of P simplify
	if k, t := constFactor(a); k != nil {
		q, r := new(big.Int).QuoRem(k, decP, new(big.Int))
		if r.Sign() == 0 {
			return Mul(IB(q), t)
		}
	}
	return goDiv(a, tP)
}

func ceilP(a *Term) *Term { // smallest multiple of P >= a
	if a.isConst() {
		q, r := new(big.Int).QuoRem(a.ival, decP, new(big.Int))
		if r.Sign() > 0 {
			q.Add(q, big.NewInt(1))
		}
		return IB(q.Mul(q, decP))
	}
	if k, _ := constFactor(a); k != nil && new(big.Int).Rem(k, decP).Sign() == 0 {
		return a
	}
	q := defUF("ceilP", func(r *Term) *Term {
		d := Sub(Mul(r, tP), a)
		return And(Le(I(0), d), Lt(d, tP))
	}, a)
	return Mul(q, tP)
}

func initMath() {
	bin := func(n string, f func(st *State, a, b *Term) *Term) {
		pure(n, func(x *exec, st *State, a []Val) Val {
			p, q := x.n(st, a[0]), x.n(st, a[1])
			return mkN(f(st, p, q))
		})
	}
	un := func(n string, f func(st *State, a *Term) *Term) {
		pure(n, func(x *exec, st *State, a []Val) Val { return mkN(f(st, x.n(st, a[0]))) })
	}
	for _, t := range []string{mInt, mDec} {
		bin(t+"Add", func(st *State, a, b *Term) *Term { return Add(a, b) })
		bin(t+"Sub", func(st *State, a, b *Term) *Term { return Sub(a, b) })
		bin(t+"AddMut", func(st *State, a, b *Term) *Term { return Add(a, b) })
		un(t+"Neg", func(st *State, a *Term) *Term { return Neg(a) })
		un(t+"Abs", func(st *State, a *Term) *Term { return Ite(Ge(a, I(0)), a, Neg(a)) })
		for nm, f := range map[string]func(a, b *Term) *Term{
			"Equal": Eq, "GT": Gt, "GTE": Ge, "LT": Lt, "LTE": Le} {
			f := f
			pure(t+nm, func(x *exec, st *State, a []Val) Val {
				p, q := x.n(st, a[0]), x.n(st, a[1])
				return f(p, q)
			})
		}
		for nm, f := range map[string]func(a *Term) *Term{
			"IsZero":     func(a *Term) *Term { return Eq(a, I(0)) },
			"IsPositive": func(a *Term) *Term { return Gt(a, I(0)) },
			"IsNegative": func(a *Term) *Term { return Lt(a, I(0)) },
			"Sign":       func(a *Term) *Term { return Ite(Gt(a, I(0)), I(1), Ite(Lt(a, I(0)), I(-1), I(0))) },
		} {
			f := f
			pure(t+nm, func(x *exec, st *State, a []Val) Val { return f(x.n(st, a[0])) })
		}
		pure(t+"IsNil", func(x *exec, st *State, a []Val) Val { return a[0].(Num).Nil })
		pure(t+"String", func(x *exec, st *State, a []Val) Val { return UF("numString", SInt, x.n(st, a[0])) })
		pure(t+"BigInt", func(x *exec, st *State, a []Val) Val {
			return x.newBig(st, x.n(st, a[0]))
		})
	}
	// Int
	bin(mInt+"Mul", func(st *State, a, b *Term) *Term { return Mul(a, b) })
	bin(mInt+"Quo", tdiv)
	bin(mInt+"Mod", func(st *State, a, b *Term) *Term { return Sub(a, Mul(b, tdiv(st, a, b))) })
	bin(mInt+"AddRaw", func(st *State, a, b *Term) *Term { return Add(a, b) })
	bin(mInt+"SubRaw", func(st *State, a, b *Term) *Term { return Sub(a, b) })
	bin(mInt+"MulRaw", func(st *State, a, b *Term) *Term { return Mul(a, b) })
	bin(mInt+"QuoRaw", tdiv)
	un(mInt+"ToLegacyDec", func(st *State, a *Term) *Term { return Mul(a, tP) })
	pure(mInt+"Int64", func(x *exec, st *State, a []Val) Val { return x.n(st, a[0]) })
	pure(mInt+"Uint64", func(x *exec, st *State, a []Val) Val { return x.n(st, a[0]) })
	pure(mInt+"IsInt64", func(x *exec, st *State, a []Val) Val {
		v := x.n(st, a[0])
		return And(Le(IB(new(big.Int).Neg(pow2(63))), v), Lt(v, IB(pow2(63))))
	})
	for nm, mn := range map[string]bool{mpk + "MinInt": true, mpk + "MaxInt": false, mpk + "LegacyMinDec": true, mpk + "LegacyMaxDec": false} {
		mn := mn
		bin(nm, func(st *State, a, b *Term) *Term {
			if mn {
				return Ite(Le(a, b), a, b)
			}
			return Ite(Le(a, b), b, a)
		})
	}
	pure(mpk+"NewInt", func(x *exec, st *State, a []Val) Val { return mkN(x.n(st, a[0])) })
	pure(mpk+"NewIntFromUint64", func(x *exec, st *State, a []Val) Val { return mkN(x.n(st, a[0])) })
	pure(mpk+"NewIntFromBigInt", func(x *exec, st *State, a []Val) Val { return mkN(x.big(st, a[0])) })
	pure(mpk+"NewIntWithDecimal", func(x *exec, st *State, a []Val) Val {
		n, d := a[0].(*Term), a[1].(*Term)
		if !d.isConst() {
			panic(unsupported("NewIntWithDecimal"))
		}
		return mkN(Mul(n, IB(new(big.Int).Exp(big.NewInt(10), d.ival, nil))))
	})
	for _, n := range []string{"ZeroInt", "LegacyZeroDec"} {
		pure(mpk+n, func(x *exec, st *State, a []Val) Val { return mkN(I(0)) })
	}
	pure(mpk+"OneInt", func(x *exec, st *State, a []Val) Val { return mkN(I(1)) })
	pure(mpk+"LegacyOneDec", func(x *exec, st *State, a []Val) Val { return mkN(tP) })
	pure(mpk+"LegacySmallestDec", func(x *exec, st *State, a []Val) Val { return mkN(I(1)) })
	pure(mpk+"LegacyNewDec", func(x *exec, st *State, a []Val) Val { return mkN(Mul(a[0].(*Term), tP)) })
	pure(mpk+"LegacyNewDecFromInt", func(x *exec, st *State, a []Val) Val { return mkN(Mul(x.n(st, a[0]), tP)) })
	withPrec := func(x *exec, st *State, v, p *Term) Val {
		if p.isConst() {
			k := p.ival.Int64()
			if k < 0 || k > 18 {
				st.assume(tFalse)
				return mkN(I(0))
			}
			return mkN(Mul(v, pow10(18-k)))
		}
		st.assume(And(Le(I(0), p), Le(p, I(18))))
		return mkN(Mul(v, x.pow10T(st, Sub(I(18), p))))
	}
	pure(mpk+"LegacyNewDecWithPrec", func(x *exec, st *State, a []Val) Val { return withPrec(x, st, a[0].(*Term), a[1].(*Term)) })
	pure(mpk+"LegacyNewDecFromBigIntWithPrec", func(x *exec, st *State, a []Val) Val {
		return withPrec(x, st, x.big(st, a[0]), a[1].(*Term))
	})
	pure(mpk+"LegacyNewDecFromIntWithPrec", func(x *exec, st *State, a []Val) Val {
		return withPrec(x, st, x.n(st, a[0]), a[1].(*Term))
	})
	pure(mpk+"LegacyNewDecFromBigInt", func(x *exec, st *State, a []Val) Val { return mkN(Mul(x.big(st, a[0]), tP)) })
	pure(mpk+"LegacyMustNewDecFromStr", func(x *exec, st *State, a []Val) Val {
		if s, ok := constStr(a[0].(*Term)); ok {
			if v, ok := parseDec(s); ok {
				return mkN(v)
			}
		}
		return mkN(Fresh("decFromStr", SInt))
	})
	// Dec
	bin(mDec+"Mul", func(st *State, a, b *Term) *Term { return decMul(a, b) })
	bin(mDec+"MulTruncate", func(st *State, a, b *Term) *Term { return decMulTrunc(a, b) })
	bin(mDec+"MulRoundUp", func(st *State, a, b *Term) *Term { return decMulUp(a, b) })
	bin(mDec+"MulInt", func(st *State, a, b *Term) *Term { return Mul(a, b) })
	bin(mDec+"MulInt64", func(st *State, a, b *Term) *Term { return Mul(a, b) })
	bin(mDec+"Quo", decQuo)
	bin(mDec+"QuoTruncate", decQuoTrunc)
	bin(mDec+"QuoRoundUp", decQuoUp)
	bin(mDec+"QuoInt", tdiv)
	bin(mDec+"QuoInt64", tdiv)
	un(mDec+"TruncateInt", func(st *State, a *Term) *Term { return truncP(a) })
	pure(mDec+"TruncateInt64", func(x *exec, st *State, a []Val) Val { return truncP(x.n(st, a[0])) })
	un(mDec+"TruncateDec", func(st *State, a *Term) *Term { return Mul(truncP(a), tP) })
	un(mDec+"Ceil", func(st *State, a *Term) *Term { return ceilP(a) })
	un(mDec+"RoundInt", func(st *State, a *Term) *Term { return roundP(a) })
	pure(mDec+"RoundInt64", func(x *exec, st *State, a []Val) Val { return roundP(x.n(st, a[0])) })
	pure(mDec+"IsInteger", func(x *exec, st *State, a []Val) Val {
		v := x.n(st, a[0])
		return Eq(v, Mul(truncP(v), tP))
	})
	reg(mDec+"ApproxSqrt", func(x *exec, st *State, a []Val) []outcome {
		v := x.n(st, a[0])
		r := UF("decSqrt", SInt, v)
		st.assume(Ge(r, I(0)))
		if v.isConst() && v.ival.Sign() == 0 {
			r = I(0)
		}
		// at least 10^-8 for 10^-15 and more (the square root is 3.1*10^-8)
		st.assume(Imp(Ge(v, I(1000)), Ge(r, I(10000000000))))
		// monotone
		for _, w := range x.sqrtArgs {
			if w != v {
				q := UF("decSqrt", SInt, w)
				st.assume(And(Imp(Le(v, w), Le(r, q)), Imp(Le(w, v), Le(q, r))))
			}
		}
		x.sqrtArgs = append(x.sqrtArgs, v)
		return ret(st, mkN(r), x.fallible(st))
	})
	reg(mDec+"ApproxRoot", func(x *exec, st *State, a []Val) []outcome {
		r := UF("decRoot", SInt, x.n(st, a[0]), a[1].(*Term))
		st.assume(Ge(r, I(0)))
		return ret(st, mkN(r), x.fallible(st))
	})
	pure(mDec+"Power", func(x *exec, st *State, a []Val) Val {
		d, p := x.n(st, a[0]), a[1].(*Term)
		if p.isConst() && p.ival.Int64() <= 8 {
			switch p.ival.Int64() {
			case 0:
				return mkN(tP)
			case 1:
				return mkN(d)
			case 2:
				return mkN(decMul(d, d))
			}
		}
		r := UF("decPower", SInt, d, p)
		st.assume(Imp(Ge(d, I(0)), Ge(r, I(0))))
		return mkN(r)
	})
	// math/big
	bb := "(*math/big.Int)."
	set := func(n string, f func(x *exec, st *State, a []Val) *Term) {
		reg(bb+n, func(x *exec, st *State, a []Val) []outcome {
			v := f(x, st, a)
			x.setBig(st, a[0], v)
			return ret(st, a[0])
		})
	}
	pure("math.Pow10", func(x *exec, st *State, a []Val) Val { return UF("fpow10", SInt, a[0].(*Term)) })
	pure("math/big.NewInt", func(x *exec, st *State, a []Val) Val { return x.newBig(st, a[0].(*Term)) })
	set("Set", func(x *exec, st *State, a []Val) *Term { return x.big(st, a[1]) })
	set("SetInt64", func(x *exec, st *State, a []Val) *Term { return a[1].(*Term) })
	set("SetUint64", func(x *exec, st *State, a []Val) *Term { return a[1].(*Term) })
	set("Add", func(x *exec, st *State, a []Val) *Term { return Add(x.big(st, a[1]), x.big(st, a[2])) })
	set("Sub", func(x *exec, st *State, a []Val) *Term { return Sub(x.big(st, a[1]), x.big(st, a[2])) })
	set("Mul", func(x *exec, st *State, a []Val) *Term { return Mul(x.big(st, a[1]), x.big(st, a[2])) })
	set("Neg", func(x *exec, st *State, a []Val) *Term { return Neg(x.big(st, a[1])) })
	set("Abs", func(x *exec, st *State, a []Val) *Term { v := x.big(st, a[1]); return Ite(Ge(v, I(0)), v, Neg(v)) })
	set("Quo", func(x *exec, st *State, a []Val) *Term { return tdiv(st, x.big(st, a[1]), x.big(st, a[2])) })
	set("Rem", func(x *exec, st *State, a []Val) *Term {
		p, q := x.big(st, a[1]), x.big(st, a[2])
		return Sub(p, Mul(q, tdiv(st, p, q)))
	})
	set("Div", func(x *exec, st *State, a []Val) *Term {
		p, q := x.big(st, a[1]), x.big(st, a[2])
		return euclid(st, p, q)
	})
	set("Mod", func(x *exec, st *State, a []Val) *Term {
		p, q := x.big(st, a[1]), x.big(st, a[2])
		return Sub(p, Mul(q, euclid(st, p, q)))
	})
	reg(bb+"DivMod", func(x *exec, st *State, a []Val) []outcome {
		p, q := x.big(st, a[1]), x.big(st, a[2])
		d := euclid(st, p, q)
		x.setBig(st, a[0], d)
		x.setBig(st, a[3], Sub(p, Mul(q, d)))
		return ret(st, a[0], a[3])
	})
	reg(bb+"QuoRem", func(x *exec, st *State, a []Val) []outcome {
		p, q := x.big(st, a[1]), x.big(st, a[2])
		d := tdiv(st, p, q)
		x.setBig(st, a[0], d)
		x.setBig(st, a[3], Sub(p, Mul(q, d)))
		return ret(st, a[0], a[3])
	})
	set("Exp", func(x *exec, st *State, a []Val) *Term {
		if p, ok := a[3].(Ptr); !ok || p.Ref == nil || !p.Ref.isConst() {
			panic(unsupported("big.Int.Exp with modulus"))
		}
		b, e := x.big(st, a[1]), x.big(st, a[2])
		if b.isConst() && b.ival.Int64() == 10 {
			return x.pow10T(st, e)
		}
		if e.isConst() && e.ival.Int64() == 2 {
			return Mul(b, b)
		}
		return UF("bigExp", SInt, b, e)
	})
	pure(bb+"Cmp", func(x *exec, st *State, a []Val) Val {
		p, q := x.big(st, a[0]), x.big(st, a[1])
		return Ite(Lt(p, q), I(-1), Ite(Eq(p, q), I(0), I(1)))
	})
	pure(bb+"CmpAbs", func(x *exec, st *State, a []Val) Val {
		ab := func(v *Term) *Term { return Ite(Ge(v, I(0)), v, Neg(v)) }
		p, q := ab(x.big(st, a[0])), ab(x.big(st, a[1]))
		return Ite(Lt(p, q), I(-1), Ite(Eq(p, q), I(0), I(1)))
	})
	pure(bb+"Sign", func(x *exec, st *State, a []Val) Val {
		p := x.big(st, a[0])
		return Ite(Gt(p, I(0)), I(1), Ite(Lt(p, I(0)), I(-1), I(0)))
	})
	pure(bb+"Int64", func(x *exec, st *State, a []Val) Val { return x.big(st, a[0]) })
	pure(bb+"Uint64", func(x *exec, st *State, a []Val) Val { return x.big(st, a[0]) })
	pure(bb+"IsInt64", func(x *exec, st *State, a []Val) Val {
		v := x.big(st, a[0])
		return And(Le(IB(new(big.Int).Neg(pow2(63))), v), Lt(v, IB(pow2(63))))
	})
	pure(bb+"String", func(x *exec, st *State, a []Val) Val { return x.decText(st, x.big(st, a[0])) })
	pure(bb+"Text", func(x *exec, st *State, a []Val) Val {
		if b := a[1].(*Term); !b.isConst() || b.ival.Int64() != 10 {
			return UF("bigText", SInt, x.big(st, a[0]), a[1].(*Term))
		}
		return x.decText(st, x.big(st, a[0]))
	})
}

// decText: decimal text; only its length is interpreted.
func (x *exec) decText(st *State, v *Term) Val {
	s := UF("decText", SInt, v)
	if !factDone[s.id] {
		factDone[s.id] = true
		addFact(s, Ne(s, I(0)))
		l := UF("strLen", SInt, s)
		addFact(s, Eq(l, Add(x.digitFacts(v), Ite(Lt(v, I(0)), I(1), I(0)))))
	}
	return s
}

const maxDigits = 97

// digitFacts: digits(v) is the number of decimal digits of v, for 0 <= v < 10^97.
func (x *exec) digitFacts(v *Term) *Term {
	return defUF("digits", func(r *Term) *Term {
		f := []*Term{Ge(r, I(1)), Imp(And(Ge(v, I(0)), Lt(v, pow10(1))), Eq(r, I(1)))}
		for k := int64(1); k < maxDigits; k++ {
			f = append(f, Eq(And(Le(pow10(k), v), Lt(v, pow10(k+1))), Eq(r, I(k+1))))
		}
		f = append(f, Imp(Ge(v, pow10(maxDigits)), Gt(r, I(maxDigits))))
		return And(f...)
	}, v)
}

// digits: number of decimal digits of v >= 0; a constant (or a choice between
// neighbours) when the path condition fixes it.
func (x *exec) digits(st *State, v *Term) *Term {
	if v.isConst() {
		return I(int64(len(new(big.Int).Abs(v.ival).String())))
	}
	if h, ok := x.chrHint(); ok && st != nil {
		lo := func(k int64) *Term {
			if k < 0 {
				return I(0)
			}
			return pow10(k)
		}
		for _, w := range [][2]int64{{h, h}, {h + 1, h + 1}, {h - 1, h - 1}, {h, h + 1}, {h - 1, h}} {
			if w[0] < 0 || !x.entails(st, And(Le(lo(w[0]), v), Lt(v, lo(w[1]+1)))) {
				continue
			}
			if w[0] == w[1] {
				return I(w[0] + 1)
			}
			return Ite(Ge(v, lo(w[1])), I(w[1]+1), I(w[0]+1))
		}
	}
	return x.digitFacts(v)
}

func (x *exec) chrHint() (int64, bool) {
	if x.unit == nil || x.unit.chr < 0 {
		return 0, false
	}
	return x.unit.chr, true
}

func pow10(k int64) *Term { return IB(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)) }

// pow10T: 10^k (1 for negative k, as big.Int.Exp does)
func (x *exec) pow10T(st *State, k *Term) *Term {
	if k.isConst() {
		if k.ival.Sign() < 0 {
			return I(1)
		}
		if k.ival.Int64() > 2000 {
			return UF("pow10", SInt, k)
		}
		return pow10(k.ival.Int64())
	}
	if k.op == "ite" {
		return Ite(k.args[0], x.pow10T(st, k.args[1]), x.pow10T(st, k.args[2]))
	}
	if k.op == "+" {
		for i, a := range k.args {
			if a.op == "ite" {
				th, el := a.args[1], a.args[2]
				for j, b := range k.args {
					if j != i {
						th, el = Add(th, b), Add(el, b)
					}
				}
				return Ite(a.args[0], x.pow10T(st, th), x.pow10T(st, el))
			}
		}
	}
	if c, ok := x.constOf(st, k, -20, 120); ok {
		return x.pow10T(st, I(c))
	}
	if h, ok := x.chrHint(); ok && st != nil {
		// two neighbouring values
		p := int64(0)
		for p <= 20 && h-p >= 0 {
			if x.entails(st, And(Le(I(h-p), k), Le(k, I(h-p+1)))) {
				return Ite(Le(k, I(h-p)), pow10(h-p), pow10(h-p+1))
			}
			p++
		}
	}
	return defUF("pow10", func(r *Term) *Term {
		f := []*Term{Ge(r, I(1)), Imp(Le(k, I(0)), Eq(r, I(1)))}
		for i := int64(1); i <= 60; i++ {
			f = append(f, Eq(Eq(k, I(i)), Eq(r, pow10(i))))
		}
		f = append(f, Imp(Gt(k, I(60)), Gt(r, pow10(60))))
		return And(f...)
	}, k)
}

// constOf: the value of an integer the path condition fixes, when it does.
func (x *exec) constOf(st *State, k *Term, lo, hi int64) (int64, bool) {
	if st == nil {
		return 0, false
	}
	if _, ok := x.chrHint(); !ok {
		return 0, false
	}
	if !x.entails(st, And(Le(I(lo), k), Le(k, I(hi)))) {
		return 0, false
	}
	for lo < hi {
		m := (lo + hi) >> 1
		switch {
		case x.entails(st, Le(k, I(m))):
			hi = m
		case x.entails(st, Gt(k, I(m))):
			lo = m + 1
		default:
			return 0, false
		}
	}
	return lo, true
}

func tickGap(k, prec int64) *Term {
	if k > prec {
		return pow10(k - prec)
	}
	return I(1)
}

// isTick: t is positive and a multiple of the gap of its decade (the
// definition of a price tick, independent of the code).
func isTickT(t *Term, prec int64) *Term {
	f := []*Term{Gt(t, I(0)), Lt(t, pow10(maxDigits))}
	for k := prec + 1; k < maxDigits; k++ {
		f = append(f, Imp(And(Le(pow10(k), t), Lt(t, pow10(k+1))), multOf(t, tickGap(k, prec))))
	}
	return And(f...)
}

func multOf(t, g *Term) *Term {
	if t.isConst() {
		return B(new(big.Int).Mod(t.ival, g.ival).Sign() == 0)
	}
	return Eq(t, Mul(g, euclid(newState(), t, g)))
}

// isTickAt is isTickT, reduced to the decades the path condition allows.
func (x *exec) isTickAt(st *State, t *Term, prec int64) *Term {
	if h, ok := x.chrHint(); ok && t.op != "bound" {
		for _, w := range [][2]int64{{h, h}, {h, h + 1}, {h - 1, h}} {
			if w[0] < 0 || w[1] >= maxDigits || !x.entails(st, And(Le(pow10(w[0]), t), Lt(t, pow10(w[1]+1)))) {
				continue
			}
			f := []*Term{}
			for k := w[0]; k <= w[1]; k++ {
				if g := tickGap(k, prec); k > prec {
					if w[0] == w[1] {
						f = append(f, multOf(t, g))
					} else {
						f = append(f, Imp(And(Le(pow10(k), t), Lt(t, pow10(k+1))), multOf(t, g)))
					}
				}
			}
			return And(f...)
		}
	}
	return isTickT(t, prec)
}

func isPow10T(t *Term) *Term {
	var f []*Term
	for k := int64(0); k < maxDigits; k++ {
		f = append(f, Eq(t, pow10(k)))
	}
	return Or(f...)
}

func roundP(a *Term) *Term {
	if a.isConst() {
		return IB(bankers(a.ival, decP))
	}
	return defUF("roundP", func(r *Term) *Term {
		d := Sub(a, Mul(r, tP))
		h := IB(new(big.Int).Rsh(decP, 1))
		return And(Le(Neg(h), d), Le(d, h))
	}, a)
}

func euclid(st *State, a, b *Term) *Term {
	st.assume(Ne(b, I(0)))
	if allConst(a, b) && b.ival.Sign() != 0 {
		return IB(new(big.Int).Div(a.ival, b.ival))
	}
	return defUF("ediv", func(q *Term) *Term {
		r := Sub(a, Mul(b, q))
		return And(Le(I(0), r), Lt(r, Ite(Gt(b, I(0)), b, Neg(b))))
	}, a, b)
}

// big.Int objects
func (x *exec) newBig(st *State, v *Term) Val {
	c := newCell("big", x.P.typ("math/big", "Int"))
	st.cells[c] = v
	return Ptr{Cell: c, T: c.T}
}

func (x *exec) big(st *State, v Val) *Term {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("big.Int %T", v)))
	}
	t, ok := x.load(st, p).(*Term)
	if !ok {
		panic(unsupported("big.Int content"))
	}
	return t
}

func (x *exec) setBig(st *State, v Val, t *Term) { x.store(st, v.(Ptr), t) }

func parseDec(s string) (*Term, bool) {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
	}
	if len(fp) > 18 {
		return nil, false
	}
	fp += strings.Repeat("0", 18-len(fp))
	n, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil, false
	}
	if neg {
		n.Neg(n)
	}
	return IB(n), true
}

// ---- errors ----

func (x *exec) errT() types.Type { return types.Universe.Lookup("error").Type() }

func (x *exec) nilErr() Val { return Iface{Ref: I(0), T: x.errT()} }

// newErr: some non-nil error
func (x *exec) newErr(st *State) Val {
	return Iface{Ref: newRef(), T: x.errT()}
}

// fallible: nil or non-nil error, unconstrained
func (x *exec) fallible(st *State) Val {
	return Iface{Ref: Fresh("err", SInt), T: x.errT()}
}

func isNilErr(x *exec, st *State, v Val) *Term {
	i := v.(Iface)
	if i.Dyn != nil {
		return tFalse
	}
	return Eq(i.Ref, I(0))
}

func initMisc() {
	wrap := func(x *exec, st *State, a []Val) []outcome {
		nilT := isNilErr(x, st, a[0])
		if nilT == tFalse {
			return ret(st, x.newErr(st))
		}
		return ret(st, Iface{Ref: Ite(nilT, I(0), newRef()), T: x.errT()})
	}
	reg("cosmossdk.io/errors.Wrap", wrap)
	reg("cosmossdk.io/errors.Wrapf", wrap)
	reg("(*cosmossdk.io/errors.Error).Wrap", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.newErr(st)) })
	reg("(*cosmossdk.io/errors.Error).Wrapf", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.newErr(st)) })
	reg("cosmossdk.io/errors.Register", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, Ptr{Ref: newRef(), T: x.P.typ("cosmossdk.io/errors", "Error")})
	})
	for _, n := range []string{"fmt.Errorf", "errors.New", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf"} {
		reg(n, func(x *exec, st *State, a []Val) []outcome { return ret(st, x.newErr(st)) })
	}
	for _, n := range []string{"errors.Is", "errors.As"} {
		reg(n, func(x *exec, st *State, a []Val) []outcome {
			b := Fresh("errIs", SBool)
			st.assume(Imp(isNilErr(x, st, a[0]), Not(b)))
			return ret(st, b)
		})
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Fprintf", "fmt.Print"} {
		reg(n, func(x *exec, st *State, a []Val) []outcome { return ret(st, I(0), x.nilErr()) })
	}
	reg("fmt.Sprintf", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.sprintf(st, a[0].(*Term), a[1])) })
	reg("fmt.Sprint", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.sprintf(st, strConst("%v"), a[0])) })
	strf := func(n string, res Sort) {
		reg(n, func(x *exec, st *State, a []Val) []outcome {
			var ts []*Term
			for i, v := range a {
				t, ok := v.(*Term)
				if !ok {
					if r, ok2 := v.(Rope); ok2 {
						t = ropeCode(r)
					} else {
						_ = i
						panic(unsupported(n))
					}
				}
				ts = append(ts, t)
			}
			return ret(st, UF("ext:"+n, res, ts...))
		})
	}
	for _, n := range []string{"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Repeat", "strconv.Itoa"} {
		strf(n, SInt)
	}
	for _, n := range []string{"strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold"} {
		strf(n, SBool)
	}
	inj := func(n string) {
		reg(n, func(x *exec, st *State, a []Val) []outcome {
			t := a[0].(*Term)
			r := UF("ext:"+n, SInt, t)
			addOnce(r, And(Eq(UF("un:"+n, SInt, r), t), Ne(r, I(0))))
			return ret(st, r)
		})
	}
	inj("strconv.Itoa")
	reg("strconv.FormatUint", func(x *exec, st *State, a []Val) []outcome {
		t := a[0].(*Term)
		r := UF("ext:formatUint", SInt, t)
		addOnce(r, And(Eq(UF("un:formatUint", SInt, r), t), Ne(r, I(0))))
		return ret(st, r)
	})
	reg("strconv.FormatInt", intrinsics["strconv.FormatUint"])
	reg("strings.Join", func(x *exec, st *State, a []Val) []outcome {
		s, ok := a[0].(*Slice)
		sep, ok2 := a[1].(*Term)
		if !ok || !ok2 {
			panic(unsupported("strings.Join"))
		}
		if s.Arr != nil {
			args := []*Term{sep}
			for i := 0; i < s.N; i++ {
				args = append(args, x.load(st, x.elemPtr(st, s, I(int64(i)))).(*Term))
			}
			r := UF(fmt.Sprintf("strJoin%d", s.N), SInt, args...)
			return ret(st, r)
		}
		return ret(st, Fresh("joined", SInt))
	})
	// time (int nanoseconds)
	tm := "(time.Time)."
	pure(tm+"Add", func(x *exec, st *State, a []Val) Val { return Add(a[0].(*Term), a[1].(*Term)) })
	pure(tm+"Sub", func(x *exec, st *State, a []Val) Val { return Sub(a[0].(*Term), a[1].(*Term)) })
	pure(tm+"After", func(x *exec, st *State, a []Val) Val { return Gt(a[0].(*Term), a[1].(*Term)) })
	pure(tm+"Before", func(x *exec, st *State, a []Val) Val { return Lt(a[0].(*Term), a[1].(*Term)) })
	pure(tm+"Equal", func(x *exec, st *State, a []Val) Val { return Eq(a[0].(*Term), a[1].(*Term)) })
	pure(tm+"Compare", func(x *exec, st *State, a []Val) Val {
		p, q := a[0].(*Term), a[1].(*Term)
		return Ite(Lt(p, q), I(-1), Ite(Eq(p, q), I(0), I(1)))
	})
	pure(tm+"IsZero", func(x *exec, st *State, a []Val) Val { return Eq(a[0].(*Term), IB(zeroTime)) })
	pure(tm+"UTC", func(x *exec, st *State, a []Val) Val { return a[0] })
	pure(tm+"Format", func(x *exec, st *State, a []Val) Val { return UF("timeFormat", SInt, a[0].(*Term), a[1].(*Term)) })
	pure(tm+"String", func(x *exec, st *State, a []Val) Val { return UF("timeFormat", SInt, a[0].(*Term), I(0)) })
	pure("time.Now", func(x *exec, st *State, a []Val) Val { return Fresh("now", SInt) })
	pure("(time.Duration).String", func(x *exec, st *State, a []Val) Val { return UF("durString", SInt, a[0].(*Term)) })

	reg("sort.Slice", sortIntrinsic)
	reg("sort.SliceStable", sortIntrinsic)
	reg("sort.Search", sortSearch)
	reg("sort.Strings", func(x *exec, st *State, a []Val) []outcome {
		s, ok := a[0].(*Slice)
		if !ok {
			panic(unsupported("sort.Strings"))
		}
		x.permute(st, s)
		return ret(st)
	})
	safe := func(x *exec, st *State, a []Val) []outcome {
		f, onOv := a[0].(Func), a[1].(Func)
		x.useExt("SafeMath: runs f; when a decimal operation or conversion in it exceeds its bit limit (the only recovered panics), onOverflow runs on the state reached so far")
		save := x.ovf
		var pts []*State
		x.ovf = &pts
		out := x.callVal(st, f, nil, "")
		x.ovf = save
		for _, s2 := range pts {
			out = append(out, x.callVal(s2, onOv, nil, "")...)
		}
		if out == nil {
			out = []outcome{}
		}
		return out
	}
	reg("defund/types.SafeMath", safe)
	for _, n := range []string{"github.com/cosmos/cosmos-sdk/telemetry.ModuleMeasureSince", "github.com/cosmos/cosmos-sdk/telemetry.IncrCounter"} {
		reg(n, func(x *exec, st *State, a []Val) []outcome { return ret(st) })
	}
}

func assigned(fn *ssa.Function, fv *ssa.FreeVar) bool {
	var derived = map[ssa.Value]bool{fv: true}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if derived[v.X] && !derived[v] {
						derived[v] = true
						changed = true
					}
				case *ssa.Store:
					if derived[v.Addr] {
						return true
					}
				case *ssa.MakeClosure:
					for i, b := range v.Bindings {
						if derived[b] && assigned(v.Fn.(*ssa.Function), v.Fn.(*ssa.Function).FreeVars[i]) {
							return true
						}
					}
				case *ssa.Call:
					for _, a := range v.Call.Args {
						if derived[a] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (x *exec) sprintf(st *State, f *Term, rest Val) *Term {
	s, ok := rest.(*Slice)
	fs, ok2 := constStr(f)
	if !ok || !ok2 || s.Arr == nil && !s.NilV {
		return Fresh("sprintf", SInt)
	}
	var as []*Term
	for i := 0; i < s.N; i++ {
		v := x.load(st, x.elemPtr(st, s, I(int64(i))))
		if iv, ok := v.(Iface); ok && iv.Dyn != nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						as = append(as, Fresh("fmtarg", SInt))
					}
				}()
				for _, l := range x.leaves(st, iv.V, iv.Dyn) {
					as = append(as, l)
				}
			}()
		} else {
			as = append(as, Fresh("fmtarg", SInt))
		}
	}
	if len(as) == 0 {
		return strConst(fs)
	}
	r := UF("sprintf:"+fs, SInt, as...)
	if len(as) == 1 && strings.Count(fs, "%") == 1 && as[0].sort == SInt {
		addOnce(r, And(Eq(UF("unsprintf:"+fs, SInt, r), as[0]), Ne(r, I(0))))
	} else {
		addOnce(r, Ne(r, I(0)))
	}
	return r
}

// permute: contents of s become an arbitrary permutation of the old contents.
// Facts: a bijection pi between indices with new[i] = old[pi(i)].
func (x *exec) permute(st *State, s *Slice) (pi string) {
	freshN++
	pi = fmt.Sprintf("perm!%d", freshN)
	r := x.reifySlice(st, s)
	for _, l := range flatten(s.Elem) {
		name := "[]" + shortT(s.Elem) + l.path
		h := st.hget(name, arrSort(arrSort(l.sort)))
		old := Select(h, r.Id)
		inner := Fresh("sorted"+l.path, arrSort(l.sort))
		i := Bound("pi")
		sel := mk("select", "", nil, l.sort, inner, Add(r.Off, i))
		p := UF(pi, SInt, i)
		st.assume(Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, r.Len)),
			Eq(sel, mk("select", "", nil, l.sort, old, Add(r.Off, p)))), []*Term{sel}))
		j := Bound("pj")
		st.assume(Forall([]*Term{j}, Imp(Or(Lt(j, r.Off), Ge(j, Add(r.Off, r.Len))),
			Eq(mk("select", "", nil, l.sort, inner, j), mk("select", "", nil, l.sort, old, j))), []*Term{mk("select", "", nil, l.sort, inner, j)}))
		st.hset(name, Store(h, r.Id, inner))
	}
	i := Bound("pk")
	inv := pi + "inv"
	st.assume(Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, r.Len)), And(
		Le(I(0), UF(pi, SInt, i)), Lt(UF(pi, SInt, i), r.Len), Eq(UF(inv, SInt, UF(pi, SInt, i)), i))), []*Term{UF(pi, SInt, i)}))
	st.assume(Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, r.Len)), And(
		Le(I(0), UF(inv, SInt, i)), Lt(UF(inv, SInt, i), r.Len), Eq(UF(pi, SInt, UF(inv, SInt, i)), i))), []*Term{UF(inv, SInt, i)}))
	if s.Arr != nil {
		// keep the array cell in step: read back
		arr := st.cells[s.Arr].(*Struct)
		n := &Struct{T: arr.T, F: append([]Val{}, arr.F...)}
		rs := &Slice{Elem: s.Elem, Id: r.Id, Off: r.Off, Len: r.Len}
		for k := 0; k < s.N; k++ {
			n.F[s.Lo+k] = x.sliceLoad(st, rs, I(int64(k)), nil)
		}
		st.setCell(s.Arr, n)
	}
	return pi
}

func sortIntrinsic(x *exec, st *State, a []Val) []outcome {
	iv, ok := a[0].(Iface)
	if !ok || iv.Dyn == nil {
		panic(unsupported("sort.Slice"))
	}
	s, ok := iv.V.(*Slice)
	if !ok {
		panic(unsupported("sort.Slice of non-slice"))
	}
	if s.Arr != nil && s.N <= 1 || s.NilV {
		return ret(st)
	}
	x.permute(st, s)
	// sortedness: no element is less than its predecessor, instantiated by
	// evaluating the comparison closure on adjacent (bound) indices
	less := a[1].(Func)
	x.sortedFact(st, s, less)
	return ret(st)
}

// sortedFact assumes forall i<j in range: !less(j,i), by evaluating less on
// symbolic indices and generalising.
func (x *exec) sortedFact(st *State, s *Slice, less Func) {
	i, j := Fresh("si", SInt), Fresh("sj", SInt)
	s2 := st.clone()
	s2.log = nil
	n := x.lenOf(s)
	base := len(s2.pc)
	s2.assume(And(Le(I(0), i), Lt(i, j), Lt(j, n)))
	rec := x.recording
	x.recording = true
	outs := x.callVal(s2, less, []Val{j, i}, "sort")
	x.recording = rec
	var cs []*Term
	for _, o := range outs {
		if o.kind != oReturn {
			continue
		}
		cs = append(cs, Imp(And(o.st.pc[base:]...), Not(o.vals[0].(*Term))))
	}
	body := And(cs...)
	bi, bj := Bound("bi"), Bound("bj")
	body = substT(body, map[*Term]*Term{i: bi, j: bj})
	// trigger: contents at both indices of the first leaf
	l := flatten(s.Elem)[0]
	name := "[]" + shortT(s.Elem) + l.path
	r := s
	if s.Arr != nil {
		return
	}
	inner := Select(st.hget(name, arrSort(arrSort(l.sort))), r.Id)
	p1 := mk("select", "", nil, l.sort, inner, Add(r.Off, bi))
	p2 := mk("select", "", nil, l.sort, inner, Add(r.Off, bj))
	st.assume(Forall([]*Term{bi, bj}, body, []*Term{p1, p2}))
}

// sort.Search(n, f): r in [0,n]; r<n => f(r); r>0 => !f(r-1).
func sortSearch(x *exec, st *State, a []Val) []outcome {
	n := a[0].(*Term)
	f := a[1].(Func)
	x.useExt("sort.Search: r in [0,n], f(r) if r<n, !f(r-1) if r>0 (f monotone is not assumed)")
	st.assume(Ge(n, I(0)))
	r := Fresh("search", SInt)
	st.assume(And(Le(I(0), r), Le(r, n)))
	var out []outcome
	step := func(ss []*State, cond *Term, at *Term, want bool) []*State {
		var res []*State
		for _, s := range ss {
			if x.feasible(s, Not(cond)) {
				s3 := s.clone()
				s3.assume(Not(cond))
				res = append(res, s3)
			}
			if x.feasible(s, cond) {
				s2 := s.clone()
				s2.assume(cond)
				for _, o := range x.callVal(s2, f, []Val{at}, "sort.Search") {
					if o.kind != oReturn {
						continue
					}
					t := o.vals[0].(*Term)
					if !want {
						t = Not(t)
					}
					if x.feasible(o.st, t) {
						o.st.assume(t)
						res = append(res, o.st)
					}
				}
			}
		}
		return res
	}
	ss := []*State{st}
	ss = step(ss, Lt(r, n), r, true)
	ss = step(ss, Gt(r, I(0)), Sub(r, I(1)), false)
	for _, s := range ss {
		out = append(out, outcome{kind: oReturn, st: s, vals: []Val{r}})
	}
	if out == nil {
		out = []outcome{}
	}
	return out
}

// substT substitutes terms.
func substT(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=":
		return Eq(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "+":
		return Add(as...)
	case "*":
		r := as[0]
		for _, a := range as[1:] {
			r = Mul(r, a)
		}
		return r
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	}
	n := mk(t.op, t.name, t.ival, t.sort, as...)
	n.qv = t.qv
	if t.op == "uf" {
		// facts attached to the original application carry over
		factMu.Lock()
		fs := facts[t.id]
		factMu.Unlock()
		if len(fs) > 0 && !factDone[n.id] {
			factDone[n.id] = true
			for _, g := range fs {
				m := map[*Term]*Term{t: n}
				for i := range t.args {
					m[t.args[i]] = as[i]
				}
				addFact(n, substT(g, m))
			}
		}
	}
	return n
}

var _ = sort.Ints
