package amm_test

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
)

type book struct {
	orders []amm.Order
}

// a random book around a price; amounts small enough to make roundings matter
func randBook(v *vh, prec int) ([]amm.Order, *big.Int) {
	center := v.price()
	switch v.r.Intn(3) {
	case 0:
		center = p10(14 + v.r.Intn(6))
	}
	tick := amm.PriceToDownTick(toDec(center), prec).BigInt()
	n := 2 + v.r.Intn(9)
	nt := 1 + v.r.Intn(4)
	ticks := []*big.Int{tick}
	up := tick
	for i := 1; i < nt; i++ {
		for k := 0; k <= v.r.Intn(3); k++ {
			up = nextTick(up, prec)
		}
		ticks = append(ticks, up)
	}
	maxD := 1 + v.r.Intn(12)
	// the amount that is worth one quote coin
	unit := cdiv(bigP, tick)
	var out []amm.Order
	for i := 0; i < n; i++ {
		p := ticks[v.r.Intn(len(ticks))]
		dir := amm.Buy
		if v.r.Intn(2) == 0 {
			dir = amm.Sell
		}
		amt := v.pos(maxD)
		switch v.r.Intn(3) {
		case 0:
			amt = add(mul(unit, bi(int64(1+v.r.Intn(4)))), bi(int64(v.r.Intn(3)-1)))
		case 1:
			amt = bi(int64(1 + v.r.Intn(30)))
		}
		if amt.Sign() <= 0 {
			amt = bi(1)
		}
		offer := amt
		if dir == amm.Buy {
			offer = cdiv(mul(p, amt), bigP)
			if v.r.Intn(4) == 0 {
				offer = add(offer, v.num(6))
			}
		}
		o := amm.NewBaseOrder(dir, toDec(p), toInt(amt), toInt(offer))
		out = append(out, &vorder{BaseOrder: o, batch: uint64(v.r.Intn(3)), id: i})
	}
	last := ticks[v.r.Intn(len(ticks))]
	return out, last
}

func bstr(os []amm.Order) string {
	var s []string
	for _, o := range os {
		s = append(s, fmt.Sprintf("%s %s@%s offer %s batch %d", o.GetDirection(), o.GetAmount(), strings.TrimRight(o.GetPrice().String(), "0"), o.GetOfferCoinAmount(), o.GetBatchId()))
	}
	return strings.Join(s, "; ")
}

type snap struct{ paid, recv, open *big.Int }

func snaps(os []amm.Order) []snap {
	var r []snap
	for _, o := range os {
		r = append(r, snap{o.GetPaidOfferCoinAmount().BigInt(), o.GetReceivedDemandCoinAmount().BigInt(), o.GetOpenAmount().BigInt()})
	}
	return r
}

// checkLedger compares the reported difference with what the orders paid and
// received since the snapshot.
func checkLedger(v *vh, what string, os []amm.Order, before []snap, diff math.Int, whole bool) (bought, sold *big.Int) {
	pb, rs := bi(0), bi(0)
	bought, sold = bi(0), bi(0)
	for i, o := range os {
		dp, dr, do := sub(o.GetPaidOfferCoinAmount().BigInt(), before[i].paid), sub(o.GetReceivedDemandCoinAmount().BigInt(), before[i].recv), sub(before[i].open, o.GetOpenAmount().BigInt())
		if dp.Sign() < 0 || dr.Sign() < 0 || do.Sign() < 0 || o.GetOpenAmount().IsNegative() {
			v.fail("order-moves", fmt.Sprintf("order %d paid %s received %s filled %s: %s", i, dp, dr, do, what))
		}
		if o.GetPaidOfferCoinAmount().GT(o.GetOfferCoinAmount()) {
			v.fail("overpaid", fmt.Sprintf("order %d paid %s of %s: %s", i, o.GetPaidOfferCoinAmount(), o.GetOfferCoinAmount(), what))
		}
		if o.GetDirection() == amm.Buy {
			pb, bought = add(pb, dp), add(bought, dr)
			if dr.Cmp(do) != 0 || whole && mul(dp, bigP).Cmp(mul(o.GetPrice().BigInt(), do)) > 0 && sub(mul(dp, bigP), mul(o.GetPrice().BigInt(), do)).Cmp(mul(bigP, bi(int64(len(os))*4))) > 0 {
				v.fail("buy-fill", fmt.Sprintf("buy order %d paid %s received %s filled %s: %s", i, dp, dr, do, what))
			}
		} else {
			rs, sold = add(rs, dr), add(sold, dp)
			if dp.Cmp(do) != 0 || do.Sign() > 0 && dr.Sign() <= 0 {
				v.fail("sell-fill", fmt.Sprintf("sell order %d paid %s received %s filled %s: %s", i, dp, dr, do, what))
			}
		}
	}
	if diff.BigInt().Cmp(sub(pb, rs)) != 0 {
		v.fail("diff", fmt.Sprintf("reported %s, buyers paid %s and sellers received %s: %s", diff, pb, rs, what))
	}
	if whole {
		if diff.IsNegative() {
			v.fail("negative", fmt.Sprintf("difference %s: %s", diff, what))
		}
		if bought.Cmp(sold) != 0 {
			v.fail("base", fmt.Sprintf("buyers received %s base coins, sellers gave %s: %s", bought, sold, what))
		}
	}
	return
}

func TestVerif_C02(t *testing.T) {
	v := newVH(t, "random order books over one to four ticks, amounts around the value of one quote coin, batches 0..2, matched by Match and MatchAtSinglePrice at book prices; paid, received and open amounts added up with big.Int", 60000, 30)
	defer v.done()
	for v.more() {
		prec := 1 + v.r.Intn(5)
		os, last := randBook(v, prec)
		what := fmt.Sprintf("last price %s, orders %s", toDec(last), bstr(os))
		v.try(func() string { return what }, func() {
			ob := amm.NewOrderBook(os...)
			before := snaps(os)
			if v.r.Intn(3) == 0 {
				diff, matched := ob.MatchAtSinglePrice(toDec(last))
				if matched {
					v.hit("single " + what)
					b, _ := checkLedger(v, "MatchAtSinglePrice "+what, os, before, diff, true)
					if b.Sign() == 0 {
						v.fail("matched-nothing", what)
					}
					for i, o := range os {
						f := sub(before[i].open, o.GetOpenAmount().BigInt())
						if f.Sign() > 0 && (o.GetDirection() == amm.Buy && o.GetPrice().BigInt().Cmp(last) < 0 || o.GetDirection() == amm.Sell && o.GetPrice().BigInt().Cmp(last) > 0) {
							v.fail("beyond-price", fmt.Sprintf("order %d filled beyond its price: %s", i, what))
						}
					}
				} else {
					checkLedger(v, what, os, before, math.ZeroInt(), true)
				}
				return
			}
			mp, diff, matched := ob.Match(toDec(last))
			if matched {
				v.hit(what)
				checkLedger(v, "Match "+what, os, before, diff, true)
				if !mp.IsPositive() {
					v.fail("match-price", what)
				}
			} else {
				checkLedger(v, what, os, before, math.ZeroInt(), true)
			}
		})
		// the distribution functions on their own
		what2 := ""
		v.try(func() string { return what2 }, func() {
			os, last := randBook(v, prec)
			var side []amm.Order
			dir := amm.OrderDirection(1 + v.r.Intn(2))
			tot := bi(0)
			for _, o := range os {
				if o.GetDirection() == dir {
					m := amm.MatchableAmount(o, toDec(last)).BigInt()
					if m.Sign() > 0 {
						side = append(side, o)
						tot = add(tot, m)
					}
				}
			}
			if tot.Sign() == 0 {
				return
			}
			amt := add(bi(1), new(big.Int).Rand(v.r, tot))
			what2 = fmt.Sprintf("DistributeOrderAmountToOrders %s at %s over %s", amt, toDec(last), bstr(side))
			if dir == amm.Sell && fdiv(mul(last, amt), bigP).Sign() == 0 {
				return
			}
			before := snaps(side)
			amm.SortOrders(side)
			before = snaps(side)
			diff := amm.DistributeOrderAmountToOrders(side, toInt(amt), toDec(last))
			v.hit(what2)
			b, s := checkLedger(v, what2, side, before, diff, false)
			got := add(b, s)
			if got.Cmp(amt) > 0 || dir == amm.Buy && got.Cmp(amt) != 0 || got.Sign() == 0 {
				v.fail("distributed", fmt.Sprintf("distributed %s: %s", got, what2))
			}
		})
	}
}
