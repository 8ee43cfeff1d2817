package amm_test

import (
	"fmt"
	"math/big"
	"testing"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
)

func checkFill(v *vh, o *amm.BaseOrder, price, amt *big.Int) {
	desc := func() string { return fmt.Sprintf("%s fillprice=%s fill=%s", ostr(o), toDec(price), amt) }
	v.try(desc, func() {
		d0 := desc()
		ma := amm.MatchableAmount(o, toDec(price)).BigInt()
		rem := sub(o.GetOfferCoinAmount().BigInt(), o.GetPaidOfferCoinAmount().BigInt())
		if ma.Sign() < 0 || ma.Cmp(o.GetOpenAmount().BigInt()) > 0 {
			v.fail("matchable-range", fmt.Sprintf("MatchableAmount=%s for %s", ma, d0))
		}
		if o.Direction == amm.Buy && mul(price, ma).Cmp(mul(rem, bigP)) > 0 {
			v.fail("matchable-affordable", fmt.Sprintf("MatchableAmount=%s for %s", ma, d0))
		}
		if ma.Sign() > 0 && mul(price, ma).Cmp(bigP) < 0 {
			v.fail("matchable-worthless", fmt.Sprintf("MatchableAmount=%s for %s", ma, d0))
		}
		if amt.Cmp(ma) > 0 {
			// the code must refuse
			func() {
				defer func() { recover() }()
				c := *o
				amm.FillOrder(&c, toInt(amt), toDec(price))
				v.fail("overfill", "FillOrder accepted more than the matchable amount: "+d0)
			}()
			if ma.Sign() <= 0 {
				return
			}
			amt = add(bi(1), new(big.Int).Rand(v.r, ma))
		}
		if amt.Sign() <= 0 {
			return
		}
		paid0, recv0, open0 := o.PaidOfferCoinAmount.BigInt(), o.ReceivedDemandCoinAmount.BigInt(), o.OpenAmount.BigInt()
		var diff *big.Int
		if v.r.Intn(3) == 0 {
			amt = ma
			diff = amm.FulfillOrder(o, toDec(price)).BigInt()
		} else if v.r.Intn(3) == 0 {
			amt = ma
			diff = amm.FulfillOrders([]amm.Order{o}, toDec(price)).BigInt()
		} else {
			diff = amm.FillOrder(o, toInt(amt), toDec(price)).BigInt()
		}
		v.hit(d0)
		dp, dr, do := sub(o.PaidOfferCoinAmount.BigInt(), paid0), sub(o.ReceivedDemandCoinAmount.BigInt(), recv0), sub(open0, o.OpenAmount.BigInt())
		var ep, er, ed *big.Int
		if o.Direction == amm.Buy {
			ep, er = cdiv(mul(price, amt), bigP), amt
			ed = ep
		} else {
			ep, er = amt, fdiv(mul(price, amt), bigP)
			ed = new(big.Int).Neg(er)
		}
		if dp.Cmp(ep) != 0 || dr.Cmp(er) != 0 || do.Cmp(amt) != 0 || diff.Cmp(ed) != 0 {
			v.fail("fill", fmt.Sprintf("fill %s of %s: paid %s (want %s) received %s (want %s) open fell %s diff %s (want %s)", amt, d0, dp, ep, dr, er, do, diff, ed))
		}
		if o.PaidOfferCoinAmount.GT(o.OfferCoinAmount) {
			v.fail("overpaid", d0)
		}
	})
}

func TestVerif_C01(t *testing.T) {
	v := newVH(t, "random and boundary orders, match prices and repeated partial fills; MatchableAmount, FillOrder, FulfillOrder(s) and OfferCoinAmount checked against exact integer arithmetic", 30000, 20)
	defer v.done()
	for _, m := range v.seeds() {
		o := amm.NewBaseOrder(amm.OrderDirection(get(m, "order.Direction", 1).Int64()), toDec(bigP), math.NewInt(1), math.NewInt(1))
		o.Amount = toInt(get(m, "order.Amount", 1))
		o.OpenAmount = toInt(get(m, "order.OpenAmount", 1))
		o.OfferCoinAmount = toInt(get(m, "order.OfferCoinAmount", 1))
		o.PaidOfferCoinAmount = toInt(get(m, "order.PaidOfferCoinAmount", 0))
		if p, ok := m["price"]; ok && (o.Direction == amm.Buy || o.Direction == amm.Sell) {
			checkFill(v, o, p, get(m, "amt", 1))
		}
	}
	for v.more() {
		dir := amm.OrderDirection(1 + v.r.Intn(2))
		p, amt := v.price(), v.num(22)
		want := amt
		if dir == amm.Buy {
			want = cdiv(mul(p, amt), bigP)
		}
		if got := amm.OfferCoinAmount(dir, toDec(p), toInt(amt)).BigInt(); got.Cmp(want) != 0 {
			v.fail("offer", fmt.Sprintf("OfferCoinAmount(%s,%s,%s)=%s want %s", dir, toDec(p), amt, got, want))
		}
		o := randOrder(v, dir)
		for k := 0; k < 1+v.r.Intn(4); k++ {
			mp := o.Price.BigInt()
			switch v.r.Intn(4) {
			case 0:
				mp = v.price()
			case 1:
				if mp.Cmp(bi(1000)) > 0 {
					mp = sub(mp, new(big.Int).Rand(v.r, fdiv(mp, bi(2))))
				}
			}
			if mp.Sign() <= 0 {
				continue
			}
			lim := o.OpenAmount.BigInt()
			if v.r.Intn(6) == 0 {
				lim = add(lim, bi(3))
			}
			f := add(bi(1), new(big.Int).Rand(v.r, add(lim, bi(1))))
			if v.r.Intn(3) == 0 {
				f = bi(int64(1 + v.r.Intn(5)))
			}
			checkFill(v, o, mp, f)
		}
	}
}

func get(m map[string]*big.Int, k string, d int64) *big.Int {
	if x, ok := m[k]; ok {
		return x
	}
	return bi(d)
}

func checkDeposit(v *vh, rx, ry, ps, x, y *big.Int) {
	desc := func() string { return fmt.Sprintf("Deposit(rx=%s,ry=%s,ps=%s,x=%s,y=%s)", rx, ry, ps, x, y) }
	v.try(desc, func() {
		a, b, c := amm.Deposit(toInt(rx), toInt(ry), toInt(ps), toInt(x), toInt(y))
		ax, ay, pc := a.BigInt(), b.BigInt(), c.BigInt()
		res := func() string { return fmt.Sprintf("%s = (%s,%s,%s)", desc(), ax, ay, pc) }
		if pc.Sign() > 0 {
			v.hit(desc())
		}
		if ax.Sign() < 0 || ay.Sign() < 0 || pc.Sign() < 0 {
			v.fail("negative", res())
		}
		if ax.Cmp(x) > 0 || ay.Cmp(y) > 0 {
			v.fail("accepted-more-than-offered", res())
		}
		if mul(pc, rx).Cmp(mul(ps, x)) > 0 || mul(pc, ry).Cmp(mul(ps, y)) > 0 {
			v.fail("minted-more-than-share", res())
		}
		if mul(rx, pc).Cmp(mul(ax, ps)) > 0 || mul(ry, pc).Cmp(mul(ay, ps)) > 0 {
			v.fail("accepted-less-than-minted-share", res())
		}
		// deposit then withdraw everything minted, with no fee
		if pc.Sign() > 0 {
			ps2 := add(ps, pc)
			wx, wy := amm.Withdraw(toInt(add(rx, ax)), toInt(add(ry, ay)), toInt(ps2), toInt(pc), math.LegacyZeroDec())
			if wx.BigInt().Cmp(ax) > 0 || wy.BigInt().Cmp(ay) > 0 {
				v.fail("profit", res()+fmt.Sprintf(" then Withdraw = (%s,%s)", wx, wy))
			}
		}
	})
}

func TestVerif_C04(t *testing.T) {
	v := newVH(t, "random and boundary reserves, supplies and offers; Deposit checked against exact rational shares, then Withdraw of what was minted", 60000, 20)
	defer v.done()
	for _, m := range v.seeds() {
		if m["rx"] != nil && m["ps"] != nil && m["x"] != nil && m["y"] != nil && m["ry"] != nil {
			checkDeposit(v, m["rx"], m["ry"], m["ps"], m["x"], m["y"])
		}
	}
	for v.more() {
		d := 5 + v.r.Intn(30)
		rx, ry, ps := v.num(d), v.num(d), v.pos(d)
		if rx.Sign() == 0 && ry.Sign() == 0 {
			continue
		}
		x, y := v.num(d), v.num(d)
		switch v.r.Intn(5) {
		case 0: // proportional offers
			k := v.pos(6)
			x, y = fdiv(mul(rx, k), bi(1000)), fdiv(mul(ry, k), bi(1000))
		case 1:
			rx, ry, ps = mul(rx, bi(3)), mul(ry, bi(7)), ps
			x, y = add(rx, bi(1)), add(ry, bi(2))
		case 2:
			ps = p10(6 + v.r.Intn(12))
		}
		if v.r.Intn(12) == 0 {
			rx = bi(0)
		} else if v.r.Intn(12) == 0 {
			ry = bi(0)
		}
		if rx.Sign() == 0 && ry.Sign() == 0 {
			continue
		}
		checkDeposit(v, rx, ry, ps, x, y)
	}
}

func checkWithdraw(v *vh, rx, ry, ps, pc, fee *big.Int) {
	desc := func() string { return fmt.Sprintf("Withdraw(rx=%s,ry=%s,ps=%s,pc=%s,fee=%s)", rx, ry, ps, pc, toDec(fee)) }
	v.try(desc, func() {
		a, b := amm.Withdraw(toInt(rx), toInt(ry), toInt(ps), toInt(pc), toDec(fee))
		res := func() string { return fmt.Sprintf("%s = (%s,%s)", desc(), a, b) }
		for i, w := range []*big.Int{a.BigInt(), b.BigInt()} {
			r := []*big.Int{rx, ry}[i]
			if w.Sign() > 0 {
				v.hit(desc())
			}
			if w.Sign() < 0 || w.Cmp(r) > 0 {
				v.fail("out-of-reserve", res())
			}
			if pc.Cmp(ps) == 0 {
				if w.Cmp(r) != 0 {
					v.fail("last-share", res())
				}
			} else if mul(mul(w, ps), bigP).Cmp(mul(mul(r, pc), sub(bigP, fee))) > 0 {
				v.fail("more-than-pro-rata", res())
			}
		}
	})
}

func TestVerif_C05(t *testing.T) {
	v := newVH(t, "random and boundary reserves, supplies, redeemed amounts and fee rates; Withdraw checked against the exact pro-rata share less fee", 60000, 20)
	defer v.done()
	for _, m := range v.seeds() {
		if m["rx"] != nil && m["ry"] != nil && m["ps"] != nil && m["pc"] != nil {
			checkWithdraw(v, m["rx"], m["ry"], m["ps"], m["pc"], get(m, "feeRate", 0))
		}
	}
	for v.more() {
		d := 5 + v.r.Intn(33)
		rx, ry, ps := v.num(d), v.num(d), v.pos(d)
		pc := new(big.Int).Rand(v.r, add(ps, bi(1)))
		switch v.r.Intn(6) {
		case 0:
			pc = ps
		case 1:
			pc = sub(ps, bi(1))
		case 2:
			pc = bi(1)
		}
		fee := new(big.Int)
		switch v.r.Intn(5) {
		case 0:
			fee.Rand(v.r, add(bigP, bi(1)))
		case 1:
			fee.SetInt64(3000000000000000)
		case 2:
			fee.Set(bigP)
		case 3:
			fee.SetInt64(int64(v.r.Intn(10)))
		}
		checkWithdraw(v, rx, ry, ps, pc, fee)
	}
}

type rec struct {
	dir   amm.OrderDirection
	price *big.Int
	amt   *big.Int
}

type recorder struct{ got *[]rec }

func (r recorder) Order(dir amm.OrderDirection, price math.LegacyDec, amt math.Int) amm.Order {
	*r.got = append(*r.got, rec{dir, price.BigInt(), amt.BigInt()})
	return amm.DefaultOrderer.Order(dir, price, amt)
}

func checkPool(v *vh, pool amm.Pool, desc0 string, p *big.Int, basic bool) {
	desc := func() string { return fmt.Sprintf("%s price=%s", desc0, toDec(p)) }
	v.try(desc, func() {
		rxI, ryI := pool.Balances()
		rx, ry := rxI.BigInt(), ryI.BigInt()
		pp := pool.Price().BigInt()
		incl := v.r.Intn(2) == 0
		b, s := pool.BuyAmountOver(toDec(p), incl).BigInt(), pool.SellAmountUnder(toDec(p), incl).BigInt()
		if b.Sign() > 0 || s.Sign() > 0 {
			v.hit(desc())
		}
		bt, st := pool.BuyAmountTo(toDec(p)).BigInt(), pool.SellAmountTo(toDec(p)).BigInt()
		for i, a := range []*big.Int{b, bt} {
			n := []string{"BuyAmountOver", "BuyAmountTo"}[i]
			if a.Sign() < 0 || mul(p, a).Cmp(mul(rx, bigP)) > 0 {
				v.fail("buy-reserve", fmt.Sprintf("%s=%s costs more than the reserve: %s", n, a, desc()))
			}
			if p.Cmp(pp) >= 0 && a.Sign() != 0 && p.Cmp(bi(1000)) >= 0 {
				v.fail("buy-above-price", fmt.Sprintf("%s=%s at or above the pool price %s: %s", n, a, toDec(pp), desc()))
			}
		}
		for i, a := range []*big.Int{s, st} {
			n := []string{"SellAmountUnder", "SellAmountTo"}[i]
			if a.Sign() < 0 || a.Cmp(ry) > 0 {
				v.fail("sell-reserve", fmt.Sprintf("%s=%s exceeds the reserve: %s", n, a, desc()))
			}
			if p.Cmp(pp) <= 0 && a.Sign() != 0 {
				v.fail("sell-below-price", fmt.Sprintf("%s=%s at or below the pool price %s: %s", n, a, toDec(pp), desc()))
			}
		}
		k := mul(mul(rx, bigP), ry)
		if basic {
			if mul(sub(mul(rx, bigP), mul(p, b)), add(ry, b)).Cmp(k) < 0 {
				v.fail("buy-product", fmt.Sprintf("BuyAmountOver=%s lowers the product: %s", b, desc()))
			}
			if p.Cmp(mul(bigP, bigP)) <= 0 && mul(add(mul(rx, bigP), mul(p, s)), sub(ry, s)).Cmp(k) < 0 {
				v.fail("sell-product", fmt.Sprintf("SellAmountUnder=%s lowers the product: %s", s, desc()))
			}
		}
		if rp, ok := pool.(*amm.RangedPool); ok {
			lo, hi := rp.MinPrice().BigInt(), rp.MaxPrice().BigInt()
			if pp.Cmp(lo) <= 0 && (b.Sign() != 0 || bt.Sign() != 0) {
				v.fail("buy-under-range", fmt.Sprintf("buys %s/%s with the price at the bottom: %s", b, bt, desc()))
			}
			if pp.Cmp(hi) >= 0 && (s.Sign() != 0 || st.Sign() != 0) {
				v.fail("sell-over-range", fmt.Sprintf("sells %s/%s with the price at the top: %s", s, st, desc()))
			}
		}
		// the orders generated for a band around the pool price
		if v.r.Intn(6) == 0 {
			prec := 3 + v.r.Intn(2)
			ctr := pp
			if v.r.Intn(3) == 0 {
				ctr = p
			}
			low, high := fdiv(mul(ctr, bi(90)), bi(100)), fdiv(mul(ctr, bi(110)), bi(100))
			if low.Cmp(p10(prec+1)) < 0 || high.Cmp(p10(40)) > 0 {
				return
			}
			lowT, highT := amm.PriceToUpTick(toDec(low), prec), amm.PriceToDownTick(toDec(high), prec)
			var got []rec
			os := amm.PoolOrders(pool, recorder{&got}, lowT, highT, prec)
			cost, sold := new(big.Int), new(big.Int)
			for i, o := range os {
				op, oa := o.GetPrice().BigInt(), o.GetAmount().BigInt()
				if o.GetPrice().LT(lowT) || o.GetPrice().GT(highT) {
					v.fail("order-out-of-band", fmt.Sprintf("order %d %s outside [%s,%s]: %s", i, ostr(o), lowT, highT, desc()))
				}
				if !o.GetPrice().Equal(amm.PriceToDownTick(o.GetPrice(), prec)) {
					v.fail("order-off-tick", fmt.Sprintf("order %d %s: %s", i, ostr(o), desc()))
				}
				if oa.Cmp(bi(100)) < 0 {
					v.fail("order-too-small", fmt.Sprintf("order %d %s: %s", i, ostr(o), desc()))
				}
				if o.GetDirection() == amm.Buy {
					cost.Add(cost, cdiv(mul(op, oa), bigP))
					if op.Cmp(pp) > 0 {
						v.fail("order-above-price", fmt.Sprintf("buy order %d %s above the pool price %s: %s", i, ostr(o), toDec(pp), desc()))
					}
				} else {
					sold.Add(sold, oa)
					if op.Cmp(pp) < 0 {
						v.fail("order-below-price", fmt.Sprintf("sell order %d %s below the pool price %s: %s", i, ostr(o), toDec(pp), desc()))
					}
				}
			}
			if cost.Cmp(rx) > 0 || sold.Cmp(ry) > 0 {
				v.fail("orders-exceed-reserves", fmt.Sprintf("buy orders cost %s of %s, sell orders %s of %s: %s", cost, rx, sold, ry, desc()))
			}
			if len(os) > 0 {
				v.hit("orders " + desc())
			}
			v.evals += len(os)
		}
	})
}

func TestVerif_C07(t *testing.T) {
	v := newVH(t, "random and boundary basic and ranged pools and prices; the four amount functions and the generated pool orders checked against exact integer arithmetic", 60000, 25)
	defer v.done()
	for _, m := range v.seeds() {
		if m["pool.rx"] != nil && m["pool.ry"] != nil && m["price"] != nil && m["price"].Sign() > 0 && m["pool.rx"].Sign() > 0 && m["pool.ry"].Sign() > 0 {
			if m["pool.minPrice"] != nil {
				adversarialRanged(v, m["pool.rx"], m["pool.ry"], m["price"])
				continue
			}
			checkPool(v, amm.NewBasicPool(toInt(m["pool.rx"]), toInt(m["pool.ry"]), math.Int{}), fmt.Sprintf("basic rx=%s ry=%s", m["pool.rx"], m["pool.ry"]), m["price"], true)
		}
	}
	near := func(pp *big.Int) *big.Int {
		switch v.r.Intn(5) {
		case 0:
			return pp
		case 1:
			return add(pp, bi(int64(v.r.Intn(3)-1)))
		case 2:
			return fdiv(mul(pp, bi(int64(900+v.r.Intn(200)))), bi(1000))
		case 3:
			return amm.PriceToDownTick(toDec(fdiv(mul(pp, bi(int64(500+v.r.Intn(1000)))), bi(1000))), 4).BigInt()
		}
		return v.price()
	}
	for v.more() {
		if v.r.Intn(8) == 0 {
			// reserves next to a multiple of the price
			p := mul(add(p10(15), new(big.Int).Rand(v.r, mul(bi(9), p10(15)))), p10(v.r.Intn(22)))
			k := v.pos(1 + v.r.Intn(6))
			n := add(cdiv(mul(p, k), bigP), bi(int64(v.r.Intn(3)-1)))
			adversarialRanged(v, n, v.num(8), p)
			if n.Sign() > 0 {
				ry := fdiv(mul(n, bigP), mul(p, bi(2)))
				if ry.Sign() > 0 {
					checkPool(v, amm.NewBasicPool(toInt(n), toInt(ry), math.NewInt(1000000)), fmt.Sprintf("basic rx=%s ry=%s", n, ry), p, true)
				}
			}
		} else if v.r.Intn(2) == 0 {
			d := 2 + v.r.Intn(24)
			rx, ry := v.pos(d), v.pos(d)
			pool := amm.NewBasicPool(toInt(rx), toInt(ry), math.NewInt(1000000))
			pp := fdiv(mul(rx, bigP), ry)
			if pp.Cmp(bi(1000)) < 0 || pp.Cmp(p10(38)) > 0 {
				continue
			}
			p := near(pp)
			if p.Sign() <= 0 {
				continue
			}
			checkPool(v, pool, fmt.Sprintf("basic rx=%s ry=%s", rx, ry), p, true)
		} else {
			d := 2 + v.r.Intn(20)
			x, y := v.num(d), v.num(d)
			if x.Sign() == 0 && y.Sign() == 0 {
				continue
			}
			lo := v.price()
			hi := fdiv(mul(lo, add(bi(1002), v.num(6))), bi(1000))
			if lo.Cmp(p10(10)) < 0 || hi.Cmp(p10(30)) > 0 {
				continue
			}
			var pool *amm.RangedPool
			ok := func() (ok bool) {
				defer func() { ok = recover() == nil }()
				pool = amm.NewRangedPool(toInt(x), toInt(y), math.NewInt(1000000), toDec(lo), toDec(hi))
				tx, ty := pool.Translation()
				return !tx.IsNegative() && !ty.IsNegative() && pool.Price().IsPositive()
			}()
			if !ok {
				continue
			}
			// reserves after some trading
			if v.r.Intn(3) == 0 {
				pool.SetBalances(toInt(v.num(d)), toInt(v.num(d)), false)
				if a, b := pool.Balances(); a.IsZero() && b.IsZero() {
					continue
				}
			}
			pp := pool.Price().BigInt()
			p := near(pp)
			switch v.r.Intn(5) {
			case 0:
				p = lo
			case 1:
				p = hi
			}
			if p.Sign() <= 0 {
				continue
			}
			a, b := pool.Balances()
			checkPool(v, pool, fmt.Sprintf("ranged rx=%s ry=%s range=[%s,%s]", a, b, toDec(lo), toDec(hi)), p, false)
		}
	}
}

// adversarialRanged checks ranged pools holding these reserves whose range
// starts, contains or ends at the price.
func adversarialRanged(v *vh, rx, ry, p *big.Int) {
	for _, rg := range [][2]*big.Int{{p, fdiv(mul(p, bi(5)), bi(4))}, {fdiv(mul(p, bi(9)), bi(10)), fdiv(mul(p, bi(11)), bi(10))}, {fdiv(mul(p, bi(4)), bi(5)), p}} {
		for _, b := range [][2]*big.Int{{rx, ry}, {rx, bi(0)}, {bi(0), ry}} {
			if (b[0].Sign() <= 0 && b[1].Sign() <= 0) || b[0].Sign() < 0 || b[1].Sign() < 0 || rg[0].Cmp(p10(4)) < 0 || rg[1].Cmp(p10(38)) > 0 {
				continue
			}
			var pool *amm.RangedPool
			ok := func() (ok bool) {
				defer func() { ok = recover() == nil }()
				pool = amm.NewRangedPool(toInt(b[0]), toInt(b[1]), math.NewInt(1000000), toDec(rg[0]), toDec(rg[1]))
				tx, ty := pool.Translation()
				return !tx.IsNegative() && !ty.IsNegative() && pool.Price().IsPositive()
			}()
			if !ok {
				continue
			}
			v.evals++
			checkPool(v, pool, fmt.Sprintf("ranged rx=%s ry=%s range=[%s,%s]", b[0], b[1], toDec(rg[0]), toDec(rg[1])), p, false)
		}
	}
}
