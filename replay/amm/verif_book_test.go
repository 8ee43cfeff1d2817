package amm_test

import (
	"fmt"
	"math/big"
	"testing"

	"defund/x/dex/amm"
)

func TestVerif_C18(t *testing.T) {
	v := newVH(t, "random order books over up to eight ticks built order by order in shuffled order, with zero-amount and unmatchable orders, split into one to three books; ticks, queries at, between and beyond every tick and combined views compared with plain big.Int sums", 6000, 25)
	defer v.done()
	for v.more() {
		prec := 1 + v.r.Intn(4)
		center := v.price()
		ticks := []*big.Int{amm.PriceToDownTick(toDec(center), prec).BigInt()}
		for i := 0; i < v.r.Intn(8); i++ {
			up := ticks[len(ticks)-1]
			for k := 0; k <= v.r.Intn(2); k++ {
				up = nextTick(up, prec)
			}
			ticks = append(ticks, up)
		}
		nb := 1 + v.r.Intn(3)
		books := make([][]amm.Order, nb)
		var all []amm.Order
		for i := 0; i < 1+v.r.Intn(16); i++ {
			p := ticks[v.r.Intn(len(ticks))]
			dir := amm.OrderDirection(1 + v.r.Intn(2))
			amt := v.num(1 + v.r.Intn(14))
			offer := amt
			if dir == amm.Buy {
				offer = cdiv(mul(p, amt), bigP)
				if v.r.Intn(4) == 0 {
					offer = fdiv(mul(offer, bi(int64(v.r.Intn(5)))), bi(4))
				}
			}
			o := &vorder{BaseOrder: amm.NewBaseOrder(dir, toDec(p), toInt(amt), toInt(offer)), batch: uint64(v.r.Intn(3)), id: i}
			k := v.r.Intn(nb)
			books[k] = append(books[k], o)
			all = append(all, o)
		}
		what := fmt.Sprintf("books %d, orders %s", nb, bstr(all))
		v.try(func() string { return what }, func() {
			var views amm.MultipleOrderViews
			for k, os := range books {
				ob := amm.NewOrderBook()
				if v.r.Intn(2) == 0 {
					ob = amm.NewOrderBook(os...)
				} else {
					for _, o := range os {
						ob.AddOrder(o)
					}
				}
				checkBook(v, what, k, ob, os, ticks, prec)
				views = append(views, ob.MakeView())
			}
			var vw amm.OrderView = views
			checkView(v, "combined views "+what, vw, all, ticks, prec)
			v.hit(what)
		})
	}
}

func matchable(o amm.Order) *big.Int {
	p, amt := o.GetPrice().BigInt(), o.GetOpenAmount().BigInt()
	if o.GetDirection() == amm.Buy {
		amt = imin(amt, fdiv(mul(sub(o.GetOfferCoinAmount().BigInt(), o.GetPaidOfferCoinAmount().BigInt()), bigP), p))
	}
	if fdiv(mul(p, amt), bigP).Sign() == 0 {
		return bi(0)
	}
	return amt
}

func checkBook(v *vh, what string, k int, ob *amm.OrderBook, os []amm.Order, ticks []*big.Int, prec int) {
	want := map[amm.Order]bool{}
	for _, o := range os {
		if matchable(o).Sign() > 0 {
			want[o] = true
		}
	}
	var last amm.Order
	seen := map[amm.Order]bool{}
	for _, o := range ob.Orders() {
		if !want[o] || seen[o] {
			v.fail("extra", fmt.Sprintf("book %d holds %s twice or without reason: %s", k, ostr(o), what))
		}
		seen[o] = true
		if last != nil {
			d := o.GetPrice().BigInt().Cmp(last.GetPrice().BigInt())
			switch {
			case last.GetDirection() == amm.Sell && o.GetDirection() == amm.Buy,
				last.GetDirection() == amm.Buy && o.GetDirection() == amm.Buy && d > 0,
				last.GetDirection() == amm.Sell && o.GetDirection() == amm.Sell && d < 0:
				v.fail("unsorted", fmt.Sprintf("book %d: %s after %s: %s", k, ostr(o), ostr(last), what))
			}
		}
		last = o
	}
	if len(seen) != len(want) {
		v.fail("lost", fmt.Sprintf("book %d holds %d of %d orders: %s", k, len(seen), len(want), what))
	}
	for _, p := range ticks {
		for _, dir := range []amm.OrderDirection{amm.Buy, amm.Sell} {
			got := ob.BuyOrdersAt(toDec(p))
			if dir == amm.Sell {
				got = ob.SellOrdersAt(toDec(p))
			}
			n := 0
			for o := range want {
				if o.GetDirection() == dir && o.GetPrice().BigInt().Cmp(p) == 0 {
					n++
				}
			}
			if n != len(got) {
				v.fail("at", fmt.Sprintf("book %d has %d of %d %s orders at %s: %s", k, len(got), n, dir, toDec(p), what))
			}
			for _, o := range got {
				if o.GetDirection() != dir || o.GetPrice().BigInt().Cmp(p) != 0 {
					v.fail("wrong-tick", fmt.Sprintf("book %d: %s at %s %s: %s", k, ostr(o), dir, toDec(p), what))
				}
			}
		}
	}
	hi, lo := (*big.Int)(nil), (*big.Int)(nil)
	for o := range want {
		p := o.GetPrice().BigInt()
		if hi == nil || p.Cmp(hi) > 0 {
			hi = p
		}
		if lo == nil || p.Cmp(lo) < 0 {
			lo = p
		}
	}
	h, fh := ob.HighestPrice()
	l, fl := ob.LowestPrice()
	if fh != (hi != nil) || fl != (lo != nil) || hi != nil && (h.BigInt().Cmp(hi) != 0 || l.BigInt().Cmp(lo) != 0) {
		v.fail("extremes", fmt.Sprintf("book %d: highest %s lowest %s: %s", k, h, l, what))
	}
	view := ob.MakeView()
	checkView(v, fmt.Sprintf("book %d view %s", k, what), view, os, ticks, prec)
	for _, q := range queries(ticks, prec) {
		for _, incl := range []bool{true, false} {
			if len(ob.BuyOrdersAt(toDec(q))) >= 0 && has(want, amm.Buy) {
				w := total(os, amm.Buy, q, incl, -1)
				if g := view.BuyAmountUnder(toDec(q), incl).BigInt(); g.Cmp(w) != 0 {
					v.fail("buy-under", fmt.Sprintf("BuyAmountUnder(%s,%v)=%s not %s: %s", toDec(q), incl, g, w, what))
				}
			}
			if has(want, amm.Sell) {
				w := total(os, amm.Sell, q, incl, 1)
				if g := view.SellAmountOver(toDec(q), incl).BigInt(); g.Cmp(w) != 0 {
					v.fail("sell-over", fmt.Sprintf("SellAmountOver(%s,%v)=%s not %s: %s", toDec(q), incl, g, w, what))
				}
			}
		}
	}
}

func has(m map[amm.Order]bool, d amm.OrderDirection) bool {
	for o := range m {
		if o.GetDirection() == d {
			return true
		}
	}
	return false
}

func queries(ticks []*big.Int, prec int) []*big.Int {
	var q []*big.Int
	for _, p := range ticks {
		q = append(q, p, add(p, bi(1)))
		if p.Cmp(bi(1)) > 0 {
			q = append(q, sub(p, bi(1)))
		}
	}
	return q
}

// total of the matchable amounts on one side at or beyond q (side 1 above, -1 below)
func total(os []amm.Order, dir amm.OrderDirection, q *big.Int, incl bool, side int) *big.Int {
	s := bi(0)
	for _, o := range os {
		c := o.GetPrice().BigInt().Cmp(q)
		if o.GetDirection() == dir && (c == side || incl && c == 0) {
			s = add(s, matchable(o))
		}
	}
	return s
}

func checkView(v *vh, what string, view amm.OrderView, os []amm.Order, ticks []*big.Int, prec int) {
	var hb, ls *big.Int
	for _, o := range os {
		p := o.GetPrice().BigInt()
		if matchable(o).Sign() == 0 {
			continue
		}
		if o.GetDirection() == amm.Buy && (hb == nil || p.Cmp(hb) > 0) {
			hb = p
		}
		if o.GetDirection() == amm.Sell && (ls == nil || p.Cmp(ls) < 0) {
			ls = p
		}
	}
	h, fh := view.HighestBuyPrice()
	l, fl := view.LowestSellPrice()
	if fh != (hb != nil) || fh && h.BigInt().Cmp(hb) != 0 {
		v.fail("highest-buy", fmt.Sprintf("%v %v not %v: %s", h, fh, hb, what))
	}
	if fl != (ls != nil) || fl && l.BigInt().Cmp(ls) != 0 {
		v.fail("lowest-sell", fmt.Sprintf("%v %v not %v: %s", l, fl, ls, what))
	}
	for _, q := range queries(ticks, prec) {
		for _, incl := range []bool{true, false} {
			if g, w := view.BuyAmountOver(toDec(q), incl).BigInt(), total(os, amm.Buy, q, incl, 1); g.Cmp(w) != 0 {
				v.fail("buy-over", fmt.Sprintf("BuyAmountOver(%s,%v)=%s not %s: %s", toDec(q), incl, g, w, what))
			}
			if g, w := view.SellAmountUnder(toDec(q), incl).BigInt(), total(os, amm.Sell, q, incl, -1); g.Cmp(w) != 0 {
				v.fail("sell-under", fmt.Sprintf("SellAmountUnder(%s,%v)=%s not %s: %s", toDec(q), incl, g, w, what))
			}
		}
	}
}
