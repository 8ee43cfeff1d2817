package amm_test

import (
	"fmt"
	"math/big"
	"testing"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
)

// own definition of a tick: a multiple of 10^(digits-1-prec) (of 1 below that)
func gapOf(t *big.Int, prec int) *big.Int {
	d := len(t.String()) - 1 - prec
	if d < 0 {
		d = 0
	}
	return p10(d)
}

func isTick(t *big.Int, prec int) bool {
	return t.Sign() > 0 && new(big.Int).Mod(t, gapOf(t, prec)).Sign() == 0
}

func downTick(p *big.Int, prec int) *big.Int {
	g := gapOf(p, prec)
	return mul(fdiv(p, g), g)
}

// strictly above
func nextTick(p *big.Int, prec int) *big.Int { return add(downTick(p, prec), gapOf(p, prec)) }

func checkTick(v *vh, p *big.Int, prec int) {
	desc := func() string { return fmt.Sprintf("price=%s (scaled %s) prec=%d", toDec(p), p, prec) }
	v.try(desc, func() {
		v.hit(desc())
		T := amm.TickPrecision(prec)
		both := func(name string, a, b math.LegacyDec, want *big.Int) {
			if a.BigInt().Cmp(want) != 0 || b.BigInt().Cmp(want) != 0 {
				v.fail(name, fmt.Sprintf("%s gives %s / %s, want %s for %s", name, a, b, toDec(want), desc()))
			}
		}
		price := toDec(p)
		d := downTick(p, prec)
		u := d
		if !isTick(p, prec) {
			u = nextTick(p, prec)
		}
		up := nextTick(p, prec)
		both("PriceToDownTick", amm.PriceToDownTick(price, prec), T.PriceToDownTick(price), d)
		both("PriceToUpTick", amm.PriceToUpTick(price, prec), T.PriceToUpTick(price), u)
		both("UpTick", amm.UpTick(price, prec), T.UpTick(price), up)
		if p.Cmp(bi(1)) > 0 {
			dn := downTick(sub(p, bi(1)), prec)
			both("DownTick", amm.DownTick(price, prec), T.DownTick(price), dn)
		}
		if d.Cmp(p10(prec)) >= 0 {
			i := amm.TickToIndex(toDec(d), prec)
			both("index-round-trip", amm.TickFromIndex(i, prec), T.TickFromIndex(T.TickToIndex(toDec(d))), d)
			if j := amm.TickToIndex(toDec(nextTick(d, prec)), prec); j != i+1 {
				v.fail("index-step", fmt.Sprintf("index of the next tick is %d after %d for %s", j, i, desc()))
			}
			r := amm.RoundPrice(price, prec).BigInt()
			if r.Cmp(d) != 0 && r.Cmp(u) != 0 || !isTick(r, prec) {
				v.fail("RoundPrice", fmt.Sprintf("RoundPrice gives %s for %s", toDec(r), desc()))
			}
			both("TickGap", amm.TickGap(price, prec), T.TickGap(price), gapOf(p, prec))
		}
		if price.BigInt().Cmp(p) != 0 {
			v.fail("mutates", "the price was modified: "+desc())
		}
	})
}

func TestVerif_C08(t *testing.T) {
	v := newVH(t, "prices at, next to and between ticks and powers of ten over all decades up to the maximum price, tick precisions 0..17; every tick function compared with an independent definition of a tick", 60000, 25)
	defer v.done()
	for _, m := range v.seeds() {
		if p := m["price"]; p != nil && p.Sign() > 0 && len(p.String()) < 95 {
			for prec := 0; prec <= 16; prec++ {
				checkTick(v, p, prec)
			}
		}
	}
	for v.more() {
		prec := v.r.Intn(17)
		if v.r.Intn(2) == 0 {
			prec = 3 + v.r.Intn(3)
		}
		d := v.r.Intn(90)
		if v.r.Intn(2) == 0 {
			d = v.r.Intn(45)
		}
		p := p10(d)
		switch v.r.Intn(6) {
		case 0:
		case 1:
			p = add(p, bi(int64(v.r.Intn(5)-2)))
		case 2:
			p = add(p, mul(gapOf(p, prec), bi(int64(v.r.Intn(7)-3))))
		case 3:
			p = downTick(add(p, new(big.Int).Rand(v.r, mul(bi(9), p))), prec)
		case 4:
			p = add(downTick(add(p, new(big.Int).Rand(v.r, mul(bi(9), p))), prec), bi(int64(v.r.Intn(3)-1)))
		default:
			p = add(p, new(big.Int).Rand(v.r, mul(bi(9), p)))
		}
		if p.Sign() > 0 {
			checkTick(v, p, prec)
		}
	}
	for prec := 0; prec <= 17; prec++ {
		h := amm.HighestTick(prec).BigInt()
		if !isTick(h, prec) || h.Cmp(new(big.Int).Exp(bi(2), bi(300), nil)) >= 0 || nextTick(h, prec).Cmp(new(big.Int).Exp(bi(2), bi(300), nil)) < 0 {
			v.fail("HighestTick", fmt.Sprintf("%s prec=%d", toDec(h), prec))
		}
		l := amm.LowestTick(prec).BigInt()
		if l.Cmp(p10(prec)) != 0 || amm.TickToIndex(toDec(l), prec) != 0 {
			v.fail("LowestTick", fmt.Sprintf("%s prec=%d", toDec(l), prec))
		}
	}
}

func checkRanged(v *vh, x, y, m, l, p *big.Int) {
	desc := func() string {
		return fmt.Sprintf("x=%s y=%s min=%s max=%s initial=%s", x, y, toDec(m), toDec(l), toDec(p))
	}
	v.try(desc, func() {
		if x.Sign() < 0 || y.Sign() < 0 {
			return
		}
		var pool *amm.RangedPool
		var err error
		created := true
		func() {
			// an initial price whose square root equals that of a bound divides by
			// zero: nothing is created
			defer func() {
				if r := recover(); r != nil && fmt.Sprint(r) == "division by zero" {
					created = false
				} else if r != nil {
					panic(r)
				}
			}()
			pool, err = amm.CreateRangedPool(toInt(x), toInt(y), toDec(m), toDec(l), toDec(p))
		}()
		if !created {
			return
		}
		ok := m.Cmp(amm.MinPoolPrice.BigInt()) >= 0 && l.Cmp(amm.MaxPoolPrice.BigInt()) <= 0 && m.Cmp(l) < 0 && m.Cmp(p) <= 0 && p.Cmp(l) <= 0 && p.Sign() > 0
		if ok {
			// (max-min)/min is at least the gap ratio, rounded to 18 decimals
			q := toDec(sub(l, m)).Quo(toDec(m))
			ok = q.GTE(amm.MinRangedPoolPriceGapRatio)
		}
		verr := amm.ValidateRangedPoolParams(toDec(m), toDec(l), toDec(p))
		if (verr == nil) != ok {
			v.fail("validate", fmt.Sprintf("ValidateRangedPoolParams=%v, permitted=%v for %s", verr, ok, desc()))
		}
		if err == nil && !ok {
			v.fail("accepted", "created with prices that are not permitted: "+desc())
		}
		if err != nil {
			if ok && (x.Sign() > 0 || y.Sign() > 0) {
				v.fail("refused", fmt.Sprintf("%v for %s", err, desc()))
			}
			return
		}
		if x.Sign() <= 0 && y.Sign() <= 0 {
			v.fail("empty", "created from nothing: "+desc())
		}
		v.hit(desc())
		rx, ry := pool.Balances()
		ax, ay := rx.BigInt(), ry.BigInt()
		if ax.Cmp(x) > 0 || ay.Cmp(y) > 0 {
			v.fail("takes-more", fmt.Sprintf("takes %s, %s of %s", ax, ay, desc()))
		}
		if ax.Cmp(x) != 0 && ay.Cmp(y) != 0 {
			v.fail("neither-full", fmt.Sprintf("takes %s, %s of %s", ax, ay, desc()))
		}
		if ax.Sign() < 0 || ay.Sign() < 0 {
			v.fail("negative", fmt.Sprintf("takes %s, %s of %s", ax, ay, desc()))
		}
		if p.Cmp(m) == 0 && (ax.Sign() != 0 || ay.Cmp(y) != 0) {
			v.fail("bottom", fmt.Sprintf("takes %s, %s at the bottom of %s", ax, ay, desc()))
		}
		if p.Cmp(l) == 0 && (ay.Sign() != 0 || ax.Cmp(x) != 0) {
			v.fail("top", fmt.Sprintf("takes %s, %s at the top of %s", ax, ay, desc()))
		}
		if pool.MinPrice().BigInt().Cmp(m) != 0 || pool.MaxPrice().BigInt().Cmp(l) != 0 {
			v.fail("range", "the pool does not have the range given: "+desc())
		}
	})
}

func TestVerif_C17(t *testing.T) {
	v := newVH(t, "offered amounts up to 10^30 and price triples inside, at and just outside the permitted bounds, with offers chosen at the rounding boundary of the required amounts; accepted amounts and refusals checked", 25000, 25)
	defer v.done()
	lo, hi := amm.MinPoolPrice.BigInt(), amm.MaxPoolPrice.BigInt()
	for _, mm := range v.seeds() {
		checkRanged(v, get(mm, "x", 1), get(mm, "y", 1), get(mm, "minPrice", 1), get(mm, "maxPrice", 1), get(mm, "initialPrice", 1))
	}
	for v.more() {
		m := v.price()
		switch v.r.Intn(12) {
		case 0:
			m = add(lo, bi(int64(v.r.Intn(3)-1)))
		}
		var l *big.Int
		switch v.r.Intn(6) {
		case 0:
			l = add(m, bi(int64(v.r.Intn(5)-2)))
		case 1:
			l = add(hi, bi(int64(v.r.Intn(3)-1)))
		case 2: // near the smallest gap
			l = add(add(m, fdiv(mul(m, amm.MinRangedPoolPriceGapRatio.BigInt()), bigP)), bi(int64(v.r.Intn(3)-1)))
		case 3:
			l = v.price()
		default:
			l = add(m, mul(m, bi(int64(1+v.r.Intn(20)))))
		}
		p := m
		switch v.r.Intn(10) {
		case 0:
		case 1:
			p = l
		case 2:
			p = add(m, bi(int64(v.r.Intn(3)-1)))
		case 3:
			p = add(l, bi(int64(v.r.Intn(3)-1)))
		case 4:
			p = v.price()
		default:
			if l.Cmp(m) > 0 {
				p = add(m, new(big.Int).Rand(v.r, sub(l, m)))
			}
		}
		x, y := v.num(30), v.num(30)
		checkRanged(v, x, y, m, l, p)
		// what the pool would take with unlimited base coin, and offers around it
		func() {
			defer func() { recover() }()
			pool, err := amm.CreateRangedPool(toInt(x), toInt(p10(45)), toDec(m), toDec(l), toDec(p))
			if err != nil {
				return
			}
			_, ry := pool.Balances()
			checkRanged(v, x, add(ry.BigInt(), bi(int64(v.r.Intn(3)-1))), m, l, p)
		}()
		func() {
			defer func() { recover() }()
			pool, err := amm.CreateRangedPool(toInt(p10(45)), toInt(y), toDec(m), toDec(l), toDec(p))
			if err != nil {
				return
			}
			rx, _ := pool.Balances()
			checkRanged(v, add(rx.BigInt(), bi(int64(v.r.Intn(3)-1))), y, m, l, p)
		}()
		// basic pools
		bp, err := amm.CreateBasicPool(toInt(x), toInt(y))
		if err == nil {
			rx, ry := bp.Balances()
			if rx.BigInt().Cmp(x) != 0 || ry.BigInt().Cmp(y) != 0 || bp.Price().LT(amm.MinPoolPrice) || bp.Price().GT(amm.MaxPoolPrice) || !bp.PoolCoinSupply().IsPositive() {
				v.fail("basic", fmt.Sprintf("x=%s y=%s: balances %s %s supply %s", x, y, rx, ry, bp.PoolCoinSupply()))
			}
		} else if x.Sign() > 0 && y.Sign() > 0 {
			q := toInt(x).ToLegacyDec().Quo(toInt(y).ToLegacyDec())
			if q.GTE(amm.MinPoolPrice) && q.LTE(amm.MaxPoolPrice) {
				v.fail("basic-refused", fmt.Sprintf("x=%s y=%s: %v", x, y, err))
			}
		}
	}
}
