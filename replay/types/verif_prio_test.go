package types_test

import (
	"fmt"
	"sort"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

type ord struct {
	o     amm.Order
	user  bool
	id    uint64
	batch uint64
}

func (v *vh) ord(i int, dir amm.OrderDirection, price, amt int64) ord {
	p := toDec(mul(bi(price), p10(14)))
	need := amm.OfferCoinAmount(dir, p, toInt(bi(amt)))
	if v.r.Intn(3) == 0 {
		o := types.NewPoolOrder(uint64(1+v.r.Intn(4)), sdk.AccAddress{1}, dir, p, toInt(bi(amt)), "a", "b")
		return ord{o, false, o.PoolId, 0}
	}
	batch := uint64(v.r.Intn(4))
	return ord{&types.UserOrder{BaseOrder: amm.NewBaseOrder(dir, p, toInt(bi(amt)), need), Orderer: sdk.AccAddress{2}, OrderId: uint64(1 + v.r.Intn(12)), BatchId: batch, OfferCoinDenom: "a", DemandCoinDenom: "b"}, true, 0, batch}
}

func (o ord) String() string {
	k := "pool"
	id := o.id
	if u, ok := o.o.(*types.UserOrder); ok {
		k, id = "user", u.OrderId
	}
	return fmt.Sprintf("%s %d batch %d %s %s@%s open %s", k, id, o.batch, o.o.GetDirection(), o.o.GetAmount(), o.o.GetPrice(), o.o.GetOpenAmount())
}

func key(o ord) (a int64, k int, id uint64) {
	a = o.o.GetAmount().Int64()
	switch x := o.o.(type) {
	case *types.UserOrder:
		return a, 0, x.OrderId
	case *types.PoolOrder:
		return a, 1, x.PoolId
	}
	return
}

func before(x, y ord) bool {
	a, k, i := key(x)
	b, l, j := key(y)
	if a != b {
		return a > b
	}
	if k != l {
		return k < l
	}
	return i < j
}

// earlier batches first, batch 0 (the current one) last
func batchLess(a, b uint64) bool {
	if a == 0 || b == 0 {
		return a != 0 && b == 0
	}
	return a < b
}

func TestVerif_C16(t *testing.T) {
	v := newVH(t, "random user and pool orders with colliding amounts and ids, batches 0..3; HasPriority, SortOrders, GroupOrdersByBatchId, and the fills of one tick after MatchAtSinglePrice and Match", 40000, 25)
	defer v.done()
	for v.more() {
		n := 2 + v.r.Intn(7)
		var os []ord
		var am []amm.Order
		at := map[amm.Order]ord{}
		amts := []int64{1000, 2000, 2001, int64(1 + v.r.Intn(5000))}
		for i := 0; i < n; i++ {
			o := v.ord(i, amm.Sell, 10000, amts[v.r.Intn(len(amts))])
			os = append(os, o)
			am = append(am, o.o)
			at[o.o] = o
		}
		what := fmt.Sprint(os)
		v.try(func() string { return what }, func() {
			v.hit(what)
			for _, a := range os {
				for _, b := range os {
					if a.o.HasPriority(b.o) != before(a, b) {
						v.fail("priority", fmt.Sprintf("%s over %s: %v", a, b, a.o.HasPriority(b.o)))
					}
				}
			}
			groups := amm.GroupOrdersByBatchId(append([]amm.Order{}, am...))
			cnt := map[amm.Order]int{}
			for i, g := range groups {
				if i > 0 && !batchLess(groups[i-1].BatchId, g.BatchId) {
					v.fail("group-order", fmt.Sprintf("batch %d before %d: %s", groups[i-1].BatchId, g.BatchId, what))
				}
				if len(g.Orders) == 0 {
					v.fail("group-empty", what)
				}
				for _, o := range g.Orders {
					cnt[o]++
					if at[o].batch != g.BatchId {
						v.fail("group-batch", fmt.Sprintf("%s in the group of batch %d: %s", at[o], g.BatchId, what))
					}
				}
			}
			for _, o := range am {
				if cnt[o] != 1 {
					v.fail("group-lost", fmt.Sprintf("%s occurs %d times: %s", at[o], cnt[o], what))
				}
			}
			ss := append([]amm.Order{}, am...)
			amm.SortOrders(ss)
			cnt = map[amm.Order]int{}
			for i, o := range ss {
				cnt[o]++
				if i > 0 && before(at[o], at[ss[i-1]]) {
					v.fail("sorted", fmt.Sprintf("%s after %s: %s", at[o], at[ss[i-1]], what))
				}
			}
			for _, o := range am {
				if cnt[o] != 1 {
					v.fail("sort-lost", what)
				}
			}
		})
		// fills at one tick
		dir := amm.OrderDirection(1 + v.r.Intn(2))
		other := amm.Buy + amm.Sell - dir
		price := []int64{10000, 10000, 1, 3, 25, 4000, 90000}[v.r.Intn(7)]
		os, am = nil, nil
		n = 2 + v.r.Intn(6)
		tot := int64(0)
		unit := int64(1)
		if price < 10000 {
			unit = (10000 + price - 1) / price
		}
		for i := 0; i < n; i++ {
			a := amts[v.r.Intn(len(amts))]
			if v.r.Intn(2) == 0 {
				a = unit*int64(1+v.r.Intn(3)) + int64(v.r.Intn(3)) - 1
			}
			if a < 1 {
				a = 1
			}
			o := v.ord(i, dir, price, a)
			os = append(os, o)
			am = append(am, o.o)
			tot += a
		}
		c := v.ord(n, other, price, 1+v.r.Int63n(tot+tot/4+1))
		what = fmt.Sprintf("against %s: %v", c, os)
		v.try(func() string { return what }, func() {
			p := c.o.GetPrice()
			ob := amm.NewOrderBook(append(append([]amm.Order{}, am...), c.o)...)
			var matched bool
			if v.r.Intn(2) == 0 {
				_, matched = ob.MatchAtSinglePrice(p)
			} else {
				_, _, matched = ob.Match(p)
			}
			if !matched {
				return
			}
			v.hit(what)
			ps := append([]ord{}, os...)
			sort.SliceStable(ps, func(i, j int) bool { return batchLess(ps[i].batch, ps[j].batch) })
			for i, e := range ps {
				for _, l := range ps[i+1:] {
					if batchLess(e.batch, l.batch) && l.o.GetOpenAmount().LT(l.o.GetAmount()) && amm.MatchableAmount(e.o, p).IsPositive() {
						v.fail("batch", fmt.Sprintf("%s was filled before %s; %s", l, e, what))
					}
				}
			}
		})
	}
}
