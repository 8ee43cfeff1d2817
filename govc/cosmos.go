package main

// Models of the Cosmos SDK the module is written against: coins, the bank,
// accounts, the context, and module parameters.  Every model here is an
// assumed contract on a dependency and is reported as such.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sdkT = "github.com/cosmos/cosmos-sdk/types."
const sdkC = "(github.com/cosmos/cosmos-sdk/types.Coin)."
const sdkCs = "(github.com/cosmos/cosmos-sdk/types.Coins)."

var zeroBagA = ConstArr(arrSort(SInt), I(0))

func (x *exec) coinT() types.Type { return x.P.typ("github.com/cosmos/cosmos-sdk/types", "Coin") }

func coinVal(t types.Type, d, a *Term) Val {
	return &Struct{T: t, F: []Val{d, mkN(a)}}
}

// ---- coins ----

func (x *exec) bagOf(v []Val) *Bag {
	a := zeroBagA
	for _, c := range v {
		s := c.(*Struct)
		d, n := s.F[0].(*Term), s.F[1].(Num).V
		a = Store(a, d, Add(Select(a, d), n))
	}
	return &Bag{A: a, Elems: v, Known: true}
}

func (x *exec) bagOfSlice(st *State, s *Slice) *Bag {
	if s.Arr == nil {
		if s.NilV {
			return &Bag{A: zeroBagA, Known: true}
		}
		panic(unsupported("coins from a symbolic slice"))
	}
	var es []Val
	for i := 0; i < s.N; i++ {
		es = append(es, x.load(st, x.elemPtr(st, s, I(int64(i)))))
	}
	return x.bagOf(es)
}

func (x *exec) toBag(st *State, v Val) *Bag {
	switch t := v.(type) {
	case *Bag:
		return t
	case *Slice:
		return x.bagOfSlice(st, t)
	case *Struct:
		return x.bagOf([]Val{t})
	case Ptr:
		return x.toBag(st, x.load(st, t))
	}
	panic(unsupported(fmt.Sprintf("coins from %T", v)))
}

func (x *exec) amountOf(st *State, b *Bag, d *Term) *Term {
	r := Select(b.A, d)
	if !b.Known {
		st.assume(Ge(r, I(0)))
	}
	return r
}

func distinct(es []Val) *Term {
	t := tTrue
	for i := range es {
		for j := 0; j < i; j++ {
			t = And(t, Ne(es[i].(*Struct).F[0].(*Term), es[j].(*Struct).F[0].(*Term)))
		}
	}
	return t
}

// bagLen: number of denominations with a non-zero amount.
func (x *exec) bagLen(st *State, b *Bag) *Term {
	if b.Known && b.A == zeroBagA {
		return I(0)
	}
	if b.Known && len(b.Elems) > 0 {
		n := I(0)
		for _, e := range b.Elems {
			n = Add(n, Ite(Eq(e.(*Struct).F[1].(Num).V, I(0)), I(0), I(1)))
		}
		return n
	}
	n := UF("coins.len", SInt, b.A)
	st.assume(Le(I(0), n))
	st.assume(Le(n, I(1<<30)))
	d := Bound("cd")
	sel := mk("select", "", nil, SInt, b.A, d)
	ix := UF("coins.idx", SInt, b.A, d)
	st.assume(Forall([]*Term{d}, Imp(Ne(sel, I(0)), And(Le(I(0), ix), Lt(ix, n), Eq(UF("coins.denom", SInt, b.A, ix), d))), []*Term{sel}))
	return n
}

func (x *exec) bagElem(st *State, b *Bag, i *Term, t types.Type) Val {
	if b.Known && i.isConst() && int(i.ival.Int64()) < len(b.Elems) {
		all := tTrue
		for _, e := range b.Elems {
			all = And(all, Ne(e.(*Struct).F[1].(Num).V, I(0)))
		}
		if len(b.Elems) == 1 || x.entails(st, all) && false {
			return b.Elems[i.ival.Int64()]
		}
	}
	d := UF("coins.denom", SInt, b.A, i)
	st.assume(Gt(d, I(0)))
	a := Select(b.A, d)
	if !b.Known {
		st.assume(Ge(a, I(0)))
	}
	// each entry of a coin list is one denomination with a positive amount
	st.assume(Gt(a, I(0)))
	st.assume(Eq(UF("coins.idx", SInt, b.A, d), i))
	return coinVal(t, d, a)
}

// combine a with other (sign +1/-1).
func (x *exec) bagCombine(st *State, a, b *Bag, sign int64) *Bag {
	if b.Known {
		r := a.A
		for _, e := range b.Elems {
			s := e.(*Struct)
			d, n := s.F[0].(*Term), s.F[1].(Num).V
			r = Store(r, d, Add(Select(r, d), Mul(I(sign), n)))
		}
		if len(b.Elems) == 0 {
			return a
		}
		k := false
		var es []Val
		if sign > 0 && a.Known {
			k = true
			es = append(append([]Val{}, a.Elems...), b.Elems...)
		}
		return &Bag{A: r, Known: k, Elems: es}
	}
	if b.A == zeroBagA {
		return a
	}
	if a.Known && len(a.Elems) == 0 && sign > 0 {
		return b
	}
	r := Fresh("coins", arrSort(SInt))
	d := Bound("cd")
	sel := func(t *Term) *Term { return mk("select", "", nil, SInt, t, d) }
	st.assume(Forall([]*Term{d}, Eq(sel(r), Add(sel(a.A), Mul(I(sign), sel(b.A)))), []*Term{sel(r)}))
	return &Bag{A: r}
}

// bagRow is the row of balances after adding (sign=1) or taking (sign=-1) coins.
func (x *exec) bagRow(st *State, row *Term, b *Bag, sign int64) *Term {
	return x.bagCombine(st, &Bag{A: row}, b, sign).A
}

func bagZero(b *Bag) *Term {
	if b.Known {
		if len(b.Elems) == 1 {
			return Eq(b.Elems[0].(*Struct).F[1].(Num).V, I(0))
		}
		t := tTrue
		for _, e := range b.Elems {
			t = And(t, Eq(e.(*Struct).F[1].(Num).V, I(0)))
		}
		return t
	}
	return Eq(b.A, zeroBagA)
}

// ---- addresses ----

func strOfAddr(a *Term) *Term {
	s := UF("bech32", SInt, a)
	if !factDone[s.id] {
		factDone[s.id] = true
		addFact(s, And(Eq(UF("unbech32", SInt, s), a), UF("validBech32", SBool, s), Ge(s, I(0)), Imp(Ne(a, I(0)), Ne(s, I(0)))))
	}
	return s
}

func addrOfStr(s *Term) *Term {
	a := UF("unbech32", SInt, s)
	if !factDone[a.id] {
		factDone[a.id] = true
		l := UF("strLen", SInt, a)
		addFact(a, And(Ge(a, I(0)), Imp(UF("validBech32", SBool, s), And(Gt(a, I(0)), Ge(l, I(1)), Le(l, I(255))))))
	}
	return a
}

func (x *exec) addrCode(st *State, v Val) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case Rope:
		return ropeCode(t.norm())
	}
	panic(unsupported(fmt.Sprintf("address %T", v)))
}

func moduleAddr(name *Term) *Term {
	a := UF("moduleAddr", SInt, name)
	l := UF("strLen", SInt, a)
	addOnce(a, And(Gt(a, I(0)), Eq(l, I(20)), Eq(UF("unModuleAddr", SInt, a), name)))
	return a
}

func derivedAddr(parts ...*Term) *Term {
	a := UF("derivedAddr", SInt, parts...)
	l := UF("strLen", SInt, a)
	f := And(Gt(a, I(0)), Ge(l, I(20)), Le(l, I(32)))
	for i, p := range parts {
		f = And(f, Eq(UF(fmt.Sprintf("unDerivedAddr%d", i), SInt, a), p))
	}
	addOnce(a, f)
	return a
}

// ---- the bank ----

const hBal = "$bal"
const hSup = "$supply"

var balSort = arrSort(arrSort(SInt))

func (x *exec) row(st *State, a *Term) *Term { return Select(st.hget(hBal, balSort), a) }

func (x *exec) addBal(st *State, a *Term, b *Bag, sign int64) {
	h := st.hget(hBal, balSort)
	st.hset(hBal, Store(h, a, x.bagRow(st, Select(h, a), b, sign)))
}

func (x *exec) addSupply(st *State, b *Bag, sign int64) {
	h := st.hget(hSup, arrSort(SInt))
	st.hset(hSup, x.bagRow(st, h, b, sign))
}

// covered: the account holds the coins (known coins only; otherwise pointwise).
func (x *exec) covered(st *State, row *Term, b *Bag) *Term {
	if b.Known {
		t := tTrue
		for _, e := range b.Elems {
			s := e.(*Struct)
			t = And(t, Ge(Select(row, s.F[0].(*Term)), s.F[1].(Num).V))
		}
		return t
	}
	d := Bound("cd")
	sel := func(t *Term) *Term { return mk("select", "", nil, SInt, t, d) }
	return Forall([]*Term{d}, Ge(sel(row), sel(b.A)), []*Term{sel(row)}, []*Term{sel(b.A)})
}

func (x *exec) bankOp(st *State, ok func(s *State)) []outcome {
	s2 := st.clone()
	e := x.newErr(s2)
	out := ret(s2, e)
	ok(st)
	if x.feasible(st, tTrue) {
		out = append(out, ret(st, x.nilErr())...)
	}
	return out
}

func (x *exec) send(st *State, from, to *Term, b *Bag) []outcome {
	return x.bankOp(st, func(s *State) {
		s.assume(x.covered(s, x.row(s, from), b))
		x.addBal(s, from, b, -1)
		x.addBal(s, to, b, 1)
	})
}

func strTerm(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	panic(unsupported(fmt.Sprintf("string %T", v)))
}

func initBank() {
	for _, bk := range []string{"(defund/x/dex/types.BankKeeper).", "(github.com/cosmos/cosmos-sdk/x/bank/keeper.Keeper).", "(github.com/cosmos/cosmos-sdk/x/bank/keeper.SendKeeper).", "(github.com/cosmos/cosmos-sdk/x/bank/keeper.ViewKeeper)."} {
		reg(bk+"SendCoins", func(x *exec, st *State, a []Val) []outcome {
			return x.send(st, x.addrCode(st, a[2]), x.addrCode(st, a[3]), x.toBag(st, a[4]))
		})
		reg(bk+"SendCoinsFromModuleToAccount", func(x *exec, st *State, a []Val) []outcome {
			return x.send(st, moduleAddr(strTerm(a[2])), x.addrCode(st, a[3]), x.toBag(st, a[4]))
		})
		reg(bk+"SendCoinsFromAccountToModule", func(x *exec, st *State, a []Val) []outcome {
			return x.send(st, x.addrCode(st, a[2]), moduleAddr(strTerm(a[3])), x.toBag(st, a[4]))
		})
		reg(bk+"MintCoins", func(x *exec, st *State, a []Val) []outcome {
			m, b := moduleAddr(strTerm(a[2])), x.toBag(st, a[3])
			return x.bankOp(st, func(s *State) {
				x.addBal(s, m, b, 1)
				x.addSupply(s, b, 1)
			})
		})
		reg(bk+"BurnCoins", func(x *exec, st *State, a []Val) []outcome {
			m, b := moduleAddr(strTerm(a[2])), x.toBag(st, a[3])
			return x.bankOp(st, func(s *State) {
				s.assume(x.covered(s, x.row(s, m), b))
				x.addBal(s, m, b, -1)
				x.addSupply(s, b, -1)
			})
		})
		reg(bk+"GetSupply", func(x *exec, st *State, a []Val) []outcome {
			d := strTerm(a[2])
			n := Select(st.hget(hSup, arrSort(SInt)), d)
			st.assume(Ge(n, I(0)))
			return ret(st, coinVal(x.coinT(), d, n))
		})
		reg(bk+"GetBalance", func(x *exec, st *State, a []Val) []outcome {
			d := strTerm(a[3])
			n := Select(x.row(st, x.addrCode(st, a[2])), d)
			st.assume(Ge(n, I(0)))
			return ret(st, coinVal(x.coinT(), d, n))
		})
		reg(bk+"GetAllBalances", func(x *exec, st *State, a []Val) []outcome {
			return ret(st, &Bag{A: x.row(st, x.addrCode(st, a[2]))})
		})
		reg(bk+"SpendableCoins", func(x *exec, st *State, a []Val) []outcome {
			return ret(st, &Bag{A: x.spendable(st, x.addrCode(st, a[2]))})
		})
		reg(bk+"InputOutputCoins", func(x *exec, st *State, a []Val) []outcome {
			in := a[2].(*Struct)
			from, b := addrOfStr(in.F[0].(*Term)), x.toBag(st, in.F[1])
			outs, ok := a[3].(*Slice)
			if !ok || outs.Arr == nil {
				panic(unsupported("InputOutputCoins with symbolic outputs"))
			}
			return x.bankOp(st, func(s *State) {
				s.assume(x.covered(s, x.row(s, from), b))
				x.addBal(s, from, b, -1)
				for i := 0; i < outs.N; i++ {
					o := x.load(s, x.elemPtr(s, outs, I(int64(i)))).(*Struct)
					x.addBal(s, addrOfStr(o.F[0].(*Term)), x.toBag(s, o.F[1]), 1)
				}
			})
		})
	}
	for _, ak := range []string{"(defund/x/dex/types.AccountKeeper)."} {
		reg(ak+"GetModuleAddress", func(x *exec, st *State, a []Val) []outcome {
			return ret(st, moduleAddr(strTerm(a[1])))
		})
	}
	mkIO := func(name string) {
		reg("github.com/cosmos/cosmos-sdk/x/bank/types.New"+name, func(x *exec, st *State, a []Val) []outcome {
			t := x.P.typ("github.com/cosmos/cosmos-sdk/x/bank/types", name)
			return ret(st, &Struct{T: t, F: []Val{strOfAddr(x.addrCode(st, a[0])), x.toBag(st, a[1])}})
		})
	}
	mkIO("Input")
	mkIO("Output")
}

func (x *exec) spendable(st *State, a *Term) *Term {
	row := x.row(st, a)
	r := UF("bank.spendable", arrSort(SInt), row, a)
	if !x.spendDone[r] {
		d := Bound("cd")
		sel := func(t *Term) *Term { return mk("select", "", nil, SInt, t, d) }
		st.assume(Forall([]*Term{d}, And(Le(I(0), sel(r)), Le(sel(r), sel(row))), []*Term{sel(r)}))
	}
	return r
}

func initCoins() {
	reg(sdkT+"NewCoin", func(x *exec, st *State, a []Val) []outcome {
		n := x.n(st, a[1])
		st.assume(Ge(n, I(0))) // panics on a negative amount
		st.assume(Gt(strTerm(a[0]), I(0)))
		return ret(st, coinVal(x.coinT(), a[0].(*Term), n))
	})
	reg(sdkT+"NewInt64Coin", func(x *exec, st *State, a []Val) []outcome {
		n := a[1].(*Term)
		st.assume(Ge(n, I(0)))
		return ret(st, coinVal(x.coinT(), a[0].(*Term), n))
	})
	reg(sdkT+"NewCoins", func(x *exec, st *State, a []Val) []outcome {
		b := x.toBag(st, a[0])
		if b.Known {
			st.assume(distinct(b.Elems)) // panics on duplicates
		}
		return ret(st, b)
	})
	num := func(v Val) *Term { return v.(Num).V }
	cd := func(v Val) *Term { return v.(*Struct).F[0].(*Term) }
	ca := func(x *exec, st *State, v Val) *Term { return x.n(st, v.(*Struct).F[1]) }
	_ = num
	reg(sdkC+"Add", func(x *exec, st *State, a []Val) []outcome {
		st.assume(Eq(cd(a[0]), cd(a[1])))
		return ret(st, coinVal(x.coinT(), cd(a[0]), Add(ca(x, st, a[0]), ca(x, st, a[1]))))
	})
	reg(sdkC+"AddAmount", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, coinVal(x.coinT(), cd(a[0]), Add(ca(x, st, a[0]), x.n(st, a[1]))))
	})
	reg(sdkC+"Sub", func(x *exec, st *State, a []Val) []outcome {
		st.assume(Eq(cd(a[0]), cd(a[1])))
		r := Sub(ca(x, st, a[0]), ca(x, st, a[1]))
		if x.safety && !x.recording {
			x.unit.oblige("no-panic", "negative coin amount", st, Ge(r, I(0)))
		}
		st.assume(Ge(r, I(0)))
		return ret(st, coinVal(x.coinT(), cd(a[0]), r))
	})
	reg(sdkC+"SubAmount", func(x *exec, st *State, a []Val) []outcome {
		r := Sub(ca(x, st, a[0]), x.n(st, a[1]))
		st.assume(Ge(r, I(0)))
		return ret(st, coinVal(x.coinT(), cd(a[0]), r))
	})
	cmpc := func(n string, f func(a, b *Term) *Term) {
		reg(sdkC+n, func(x *exec, st *State, a []Val) []outcome {
			st.assume(Eq(cd(a[0]), cd(a[1])))
			return ret(st, f(ca(x, st, a[0]), ca(x, st, a[1])))
		})
	}
	cmpc("IsLT", Lt)
	cmpc("IsLTE", Le)
	cmpc("IsGTE", Ge)
	cmpc("IsEqual", Eq)
	one := func(n string, f func(a *Term) *Term) {
		reg(sdkC+n, func(x *exec, st *State, a []Val) []outcome { return ret(st, f(ca(x, st, a[0]))) })
	}
	one("IsPositive", func(a *Term) *Term { return Gt(a, I(0)) })
	one("IsZero", func(a *Term) *Term { return Eq(a, I(0)) })
	one("IsNegative", func(a *Term) *Term { return Lt(a, I(0)) })
	reg(sdkC+"GetDenom", func(x *exec, st *State, a []Val) []outcome { return ret(st, cd(a[0])) })
	validC := func(x *exec, st *State, a []Val) *Term {
		s := a[0].(*Struct)
		n := s.F[1].(Num)
		return And(validDenom(cd(a[0])), Not(n.Nil), Ge(n.V, I(0)))
	}
	reg(sdkC+"IsValid", func(x *exec, st *State, a []Val) []outcome { return ret(st, validC(x, st, a)) })
	reg(sdkC+"Validate", func(x *exec, st *State, a []Val) []outcome {
		return x.errUnless(st, validC(x, st, a))
	})
	reg(sdkT+"ValidateDenom", func(x *exec, st *State, a []Val) []outcome {
		d := strTerm(a[0])
		v := validDenom(d)
		l := strLen(st, d)
		st.assume(Imp(v, And(Ge(l, I(3)), Le(l, I(128)), Gt(d, I(0)))))
		return x.errUnless(st, v)
	})

	reg(sdkCs+"AmountOf", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, mkN(x.amountOf(st, x.toBag(st, a[0]), strTerm(a[1]))))
	})
	reg(sdkCs+"AmountOfNoDenomValidation", intrinsics[sdkCs+"AmountOf"])
	reg(sdkCs+"Add", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, x.bagCombine(st, x.toBag(st, a[0]), x.toBag(st, a[1]), 1))
	})
	reg(sdkCs+"Sub", func(x *exec, st *State, a []Val) []outcome {
		p, q := x.toBag(st, a[0]), x.toBag(st, a[1])
		r := x.bagCombine(st, p, q, -1)
		cov := x.covered(st, p.A, q)
		if x.safety && !x.recording {
			x.unit.oblige("no-panic", "negative coin amount", st, cov)
		}
		st.assume(cov) // panics on a negative result
		return ret(st, r)
	})
	reg(sdkCs+"SafeSub", func(x *exec, st *State, a []Val) []outcome {
		p, q := x.toBag(st, a[0]), x.toBag(st, a[1])
		r := x.bagCombine(st, p, q, -1)
		neg := Fresh("neg", SBool)
		st.assume(Eq(Not(neg), x.covered(st, p.A, q)))
		return ret(st, r, neg)
	})
	reg(sdkCs+"IsZero", func(x *exec, st *State, a []Val) []outcome { return ret(st, bagZero(x.toBag(st, a[0]))) })
	reg(sdkCs+"Empty", intrinsics[sdkCs+"IsZero"])
	reg(sdkCs+"Len", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.bagLen(st, x.toBag(st, a[0]))) })
	reg(sdkCs+"IsValid", func(x *exec, st *State, a []Val) []outcome {
		b := x.toBag(st, a[0])
		if b.Known { // built by NewCoins: sorted, positive, distinct, valid denominations
			return ret(st, tTrue)
		}
		return ret(st, UF("coins.valid", SBool, b.A))
	})
	reg(sdkCs+"Validate", func(x *exec, st *State, a []Val) []outcome {
		b := x.toBag(st, a[0])
		return x.errUnless(st, UF("coins.valid", SBool, b.A))
	})
	reg(sdkCs+"IsAllPositive", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, UF("coins.allPositive", SBool, x.toBag(st, a[0]).A))
	})
	reg(sdkCs+"IsAllGTE", func(x *exec, st *State, a []Val) []outcome {
		p, q := x.toBag(st, a[0]), x.toBag(st, a[1])
		b := Fresh("gte", SBool)
		st.assume(Eq(b, x.covered(st, p.A, q)))
		return ret(st, b)
	})
	reg(sdkCs+"Sort", func(x *exec, st *State, a []Val) []outcome { return ret(st, a[0]) })
	reg(sdkCs+"Equal", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, Eq(x.toBag(st, a[0]).A, x.toBag(st, a[1]).A))
	})
}

// errUnless returns nil when ok, an error otherwise.
func (x *exec) errUnless(st *State, ok *Term) []outcome {
	var out []outcome
	if x.feasible(st, Not(ok)) {
		s := st.clone()
		s.assume(Not(ok))
		out = append(out, ret(s, x.newErr(s))...)
	}
	if x.feasible(st, ok) {
		st.assume(ok)
		out = append(out, ret(st, x.nilErr())...)
	}
	if out == nil {
		out = []outcome{}
	}
	return out
}

func initAddr() {
	aa := "(github.com/cosmos/cosmos-sdk/types.AccAddress)."
	reg(aa+"String", func(x *exec, st *State, a []Val) []outcome { return ret(st, strOfAddr(x.addrCode(st, a[0]))) })
	reg(aa+"Empty", func(x *exec, st *State, a []Val) []outcome { return ret(st, Eq(x.addrCode(st, a[0]), I(0))) })
	reg(aa+"Bytes", func(x *exec, st *State, a []Val) []outcome { return ret(st, a[0]) })
	reg(aa+"Equals", func(x *exec, st *State, a []Val) []outcome {
		b := a[1]
		if i, ok := b.(Iface); ok && i.Dyn != nil {
			b = i.V
		}
		return ret(st, Eq(x.addrCode(st, a[0]), x.addrCode(st, b)))
	})
	reg(sdkT+"AccAddressFromBech32", func(x *exec, st *State, a []Val) []outcome {
		s := strTerm(a[0])
		v := UF("validBech32", SBool, s)
		ad := addrOfStr(s)
		var out []outcome
		if x.feasible(st, Not(v)) {
			s2 := st.clone()
			s2.assume(Not(v))
			out = append(out, ret(s2, I(0), x.newErr(s2))...)
		}
		if x.feasible(st, v) {
			st.assume(v)
			out = append(out, ret(st, ad, x.nilErr())...)
		}
		if out == nil {
			out = []outcome{}
		}
		return out
	})
	reg(sdkT+"MustAccAddressFromBech32", func(x *exec, st *State, a []Val) []outcome {
		s := strTerm(a[0])
		st.assume(UF("validBech32", SBool, s))
		return ret(st, addrOfStr(s))
	})
	reg("github.com/cosmos/cosmos-sdk/types/address.Module", func(x *exec, st *State, a []Val) []outcome {
		parts := []*Term{strTerm(a[0])}
		if s, ok := a[1].(*Slice); ok && s.Arr != nil {
			for i := 0; i < s.N; i++ {
				parts = append(parts, x.addrCode(st, x.bytesToString(st, x.load(st, x.elemPtr(st, s, I(int64(i)))))))
			}
			return ret(st, derivedAddr(parts...))
		}
		panic(unsupported("address.Module"))
	})
	reg("github.com/cometbft/cometbft/crypto.AddressHash", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, derivedAddr(x.addrCode(st, x.bytesToString(st, a[0]))))
	})
	for _, n := range []string{"github.com/cosmos/cosmos-sdk/x/auth/types.NewModuleAddress"} {
		reg(n, func(x *exec, st *State, a []Val) []outcome { return ret(st, moduleAddr(strTerm(a[0]))) })
	}
}

func initCtx() {
	cx := "(github.com/cosmos/cosmos-sdk/types.Context)."
	reg(cx+"BlockTime", func(x *exec, st *State, a []Val) []outcome { return ret(st, Sym("blocktime", SInt)) })
	reg(cx+"BlockHeight", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, Sym("blockheight", SInt))
	})
	for _, n := range []string{"EventManager", "GasMeter", "Logger"} {
		reg(cx+n, func(x *exec, st *State, a []Val) []outcome {
			return ret(st, Iface{Ref: Sym("ctxPart", SInt), T: nil})
		})
	}
	none := func(x *exec, st *State, a []Val) []outcome { return ret(st) }
	for _, p := range []string{"(github.com/cosmos/cosmos-sdk/types.EventManagerI).", "(*github.com/cosmos/cosmos-sdk/types.EventManager)."} {
		reg(p+"EmitEvents", none)
		reg(p+"EmitEvent", none)
		reg(p+"EmitTypedEvent", func(x *exec, st *State, a []Val) []outcome { return ret(st, x.nilErr()) })
	}
	reg("(cosmossdk.io/store/types.GasMeter).ConsumeGas", none)
	reg(sdkT+"NewEvent", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, zeroVal(x.P.typ("github.com/cosmos/cosmos-sdk/types", "Event")))
	})
	reg(sdkT+"NewAttribute", func(x *exec, st *State, a []Val) []outcome {
		return ret(st, zeroVal(x.P.typ("github.com/cosmos/cosmos-sdk/types", "Attribute")))
	})
	reg(sdkT+"UnwrapSDKContext", func(x *exec, st *State, a []Val) []outcome { return ret(st, Sym("ctx", SInt)) })

	// module parameters
	sp := "(github.com/cosmos/cosmos-sdk/x/params/types.Subspace)."
	get := func(x *exec, st *State, key string, p Ptr) {
		_, t := subPath(p.T, p.Path)
		x.store(st, p, x.paramVal(st, key, t))
	}
	ifPtr := func(v Val) Ptr {
		i, ok := v.(Iface)
		if ok && i.Dyn != nil {
			if p, ok := i.V.(Ptr); ok {
				return p
			}
		}
		panic(unsupported("parameter destination"))
	}
	reg(sp+"Get", func(x *exec, st *State, a []Val) []outcome {
		k, ok := ropeLit(x.asRope(st, a[2]))
		if !ok {
			panic(unsupported("parameter key"))
		}
		get(x, st, k, ifPtr(a[3]))
		return ret(st)
	})
	reg(sp+"Set", func(x *exec, st *State, a []Val) []outcome {
		k, ok := ropeLit(x.asRope(st, a[2]))
		if !ok {
			panic(unsupported("parameter key"))
		}
		i := a[3].(Iface)
		v, t := i.V, i.Dyn
		if p, ok := v.(Ptr); ok {
			_, t = subPath(p.T, p.Path)
			v = x.load(st, p)
		}
		x.setParam(st, k, t, v)
		return ret(st)
	})
	pairs := func(x *exec, st *State, v Val, f func(s *State, key string, p Ptr, valid Func) []*State) []outcome {
		i, ok := v.(Iface)
		if !ok || i.Dyn == nil {
			panic(unsupported("parameter set"))
		}
		var fn *ssa.Function
		ms := x.P.prog.MethodSets.MethodSet(i.Dyn)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == "ParamSetPairs" {
				fn = x.P.prog.MethodValue(ms.At(k))
			}
		}
		if fn == nil {
			panic(unsupported("ParamSetPairs"))
		}
		var out []outcome
		for _, o := range x.callStatic(st, fn, []Val{i.V}, nil, "") {
			sl, ok := o.vals[0].(*Slice)
			if !ok || sl.Arr == nil {
				panic(unsupported("parameter set pairs"))
			}
			sts := []*State{o.st}
			for k := 0; k < sl.N; k++ {
				var next []*State
				for _, s := range sts {
					e := x.load(s, x.elemPtr(s, sl, I(int64(k)))).(*Struct)
					key, ok := ropeLit(x.asRope(s, e.F[0]))
					if !ok {
						panic(unsupported("parameter key"))
					}
					vf, _ := e.F[2].(Func)
					next = append(next, f(s, key, ifPtr(e.F[1]), vf)...)
				}
				sts = next
			}
			for _, s := range sts {
				out = append(out, ret(s)...)
			}
		}
		if out == nil {
			out = []outcome{}
		}
		return out
	}
	reg(sp+"GetParamSet", func(x *exec, st *State, a []Val) []outcome {
		return pairs(x, st, a[2], func(s *State, key string, p Ptr, _ Func) []*State {
			get(x, s, key, p)
			return []*State{s}
		})
	})
	reg(sp+"SetParamSet", func(x *exec, st *State, a []Val) []outcome {
		return pairs(x, st, a[2], func(s *State, key string, p Ptr, vf Func) []*State {
			_, t := subPath(p.T, p.Path)
			v := x.load(s, p)
			// a value its validator refuses makes SetParamSet panic
			x.setParam(s, key, t, v)
			return []*State{s}
		})
	})
	reg(sp+"HasKeyTable", func(x *exec, st *State, a []Val) []outcome { return ret(st, Fresh("hasKeyTable", SBool)) })
	reg(sp+"WithKeyTable", func(x *exec, st *State, a []Val) []outcome { return ret(st, a[0]) })
	kt := func(x *exec, st *State, a []Val) []outcome {
		return ret(st, zeroVal(x.P.typ("github.com/cosmos/cosmos-sdk/x/params/types", "KeyTable")))
	}
	reg("github.com/cosmos/cosmos-sdk/x/params/types.NewKeyTable", kt)
	reg("(github.com/cosmos/cosmos-sdk/x/params/types.KeyTable).RegisterParamSet", kt)
	reg("github.com/cosmos/cosmos-sdk/x/params/types.NewParamSetPair", func(x *exec, st *State, a []Val) []outcome {
		t := x.P.typ("github.com/cosmos/cosmos-sdk/x/params/types", "ParamSetPair")
		return ret(st, &Struct{T: t, F: []Val{a[0], a[1], a[2]}})
	})
}

func paramName(key string, l Leaf) string { return "param." + key + l.path }

func (x *exec) paramVal(st *State, key string, t types.Type) Val {
	var ls []*Term
	for _, l := range flatten(t) {
		if l.path == "#nil" {
			ls = append(ls, tFalse)
			continue
		}
		ls = append(ls, st.hget(paramName(key, l), l.sort))
	}
	v := build(t, ls)
	x.assumeRange(st, t, v)
	return v
}

func (x *exec) setParam(st *State, key string, t types.Type, v Val) {
	ls := x.leaves(st, v, t)
	for k, l := range flatten(t) {
		if l.path == "#nil" {
			continue
		}
		st.hget(paramName(key, l), l.sort)
		st.hset(paramName(key, l), ls[k])
	}
}

func initCosmos() {
	initRope()
	initCoins()
	initBank()
	initAddr()
	initCtx()
}

// externalCall: library functions without a model of their own.
func (x *exec) externalCall(st *State, fn *ssa.Function, name string, args []Val) []outcome {
	sig := fn.Signature
	if strings.HasSuffix(name, "/proto.EnumName") || strings.HasSuffix(name, "/proto.CompactTextString") {
		return ret(st, Fresh("string", SInt))
	}
	if fn.Name() == "String" && sig.Results().Len() == 1 && len(args) == 1 {
		return ret(st, Fresh("string", SInt))
	}
	// generated getters of protobuf messages
	if strings.HasPrefix(fn.Name(), "Get") && len(args) == 1 && sig.Recv() != nil {
		if p, ok := args[0].(Ptr); ok {
			_, t := subPath(p.T, p.Path)
			if u, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == fn.Name()[3:] && types.Identical(u.Field(i).Type(), sig.Results().At(0).Type()) {
						np := p
						np.Path = append(append([]int{}, p.Path...), i)
						return ret(st, x.load(st, np))
					}
				}
			}
		}
	}
	return nil
}

// validDenom: sdk.ValidateDenom accepts it; such a denomination has 3 to 128 characters.
func validDenom(d *Term) *Term {
	v := UF("validDenom", SBool, d)
	if !factDone[v.id] && !v.isConst() {
		factDone[v.id] = true
		l := UF("strLen", SInt, d)
		addFact(v, Imp(v, And(Ge(l, I(3)), Le(l, I(128)), Ne(d, I(0)))))
	}
	return v
}
