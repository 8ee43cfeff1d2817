package types_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// ---- C11: store keys ----

func (v *vh) id() uint64 {
	switch v.r.Intn(6) {
	case 0:
		return []uint64{0, 1, 2, 10, 255, 256, 257, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[v.r.Intn(14)]
	case 1:
		return uint64(v.r.Intn(300))
	case 2:
		return uint64(1) << uint(v.r.Intn(64))
	case 3: // all bytes the same, so that shifted keys look alike
		b := uint64(v.r.Intn(256))
		return b * 0x0101010101010101
	}
	return v.r.Uint64()
}

func (v *vh) acc() sdk.AccAddress {
	n := []int{1, 8, 19, 20, 21, 32, 127, 128, 129, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}[v.r.Intn(20)]
	if v.r.Intn(3) == 0 {
		n = 1 + v.r.Intn(255)
	}
	a := make([]byte, n)
	if v.r.Intn(2) == 0 {
		b := byte(v.r.Intn(3))
		for i := range a {
			a[i] = b
		}
	} else {
		v.r.Read(a)
	}
	return a
}

func (v *vh) denom() string {
	const first = "abAZ"
	const rest = "ab0Z9/:._-"
	n := []int{3, 4, 5, 10, 60, 126, 127, 128}[v.r.Intn(8)]
	s := string(first[v.r.Intn(4)])
	for len(s) < n {
		if v.r.Intn(2) == 0 {
			s += "a"
		} else {
			s += string(rest[v.r.Intn(len(rest))])
		}
	}
	return s
}

func TestVerif_C11(t *testing.T) {
	v := newVH(t, "keys of every kind built from random and boundary identifiers: parsed back, compared with all keys built before, scanned with every prefix of the round", 40000, 100)
	defer v.done()
	type ent struct {
		key  []byte
		own  []byte // a private copy, to see later writes through a shared buffer
		what string
	}
	type pre struct {
		key   []byte
		what  string
		match func(what string) bool
	}
	for v.more() {
		var keys []ent
		var pres []pre
		put := func(k []byte, f string, a ...interface{}) {
			keys = append(keys, ent{k, append([]byte(nil), k...), fmt.Sprintf(f, a...)})
		}
		prefix := func(k []byte, f string, a ...interface{}) {
			w := fmt.Sprintf(f, a...)
			pres = append(pres, pre{append([]byte(nil), k...), w, func(s string) bool { return strings.HasPrefix(s, w) }})
		}
		ids := []uint64{v.id(), v.id()}
		if v.r.Intn(3) == 0 {
			ids[1] = ids[0] << 8
		}
		as := []sdk.AccAddress{v.acc(), v.acc()}
		if v.r.Intn(2) == 0 && len(as[0]) < 255 { // one address extends the other
			as[1] = append(append(sdk.AccAddress{}, as[0]...), make([]byte, 1+v.r.Intn(255-len(as[0])))...)
		}
		ds := []string{v.denom(), v.denom()}
		if v.r.Intn(2) == 0 && len(ds[0]) < 128 {
			ds[1] = ds[0] + "a"
		}
		v.try(func() string { return fmt.Sprintf("ids %v addresses %X %X denoms %v", ids, []byte(as[0]), []byte(as[1]), ds) }, func() {
			put(types.LastPairIdKey, "lastpair|")
			put(types.LastPoolIdKey, "lastpool|")
			seen := map[string]bool{}
			for _, i := range ids {
				w := fmt.Sprint("i", i)
				if seen[w] {
					continue
				}
				seen[w] = true
				put(types.GetPairKey(i), "pair|%d|", i)
				put(types.GetPoolKey(i), "pool|%d|", i)
				prefix(types.GetPoolsByPairIndexKeyPrefix(i), "poolsbypair|%d|", i)
				prefix(types.GetOrdersByPairKeyPrefix(i), "order|%d|", i)
				s2 := map[uint64]bool{}
				for _, j := range ids {
					if s2[j] {
						continue
					}
					s2[j] = true
					put(types.GetDepositRequestKey(i, j), "deposit|%d|%d|", i, j)
					put(types.GetWithdrawRequestKey(i, j), "withdraw|%d|%d|", i, j)
					put(types.GetOrderKey(i, j), "order|%d|%d|", i, j)
					k := types.GetPoolsByPairIndexKey(i, j)
					put(k, "poolsbypair|%d|%d|", i, j)
					if p := types.ParsePoolsByPairIndexKey(k); p != j {
						v.fail("parse-poolsbypair", fmt.Sprintf("pair %d pool %d parsed as pool %d", i, j, p))
					}
				}
			}
			for _, a := range as {
				if seen[string(a)+"|a"] {
					continue
				}
				seen[string(a)+"|a"] = true
				put(types.GetPoolByReserveAddressIndexKey(a), "reserve|%X|", []byte(a))
				prefix(types.GetDepositRequestIndexKeyPrefix(a), "depositidx|%X|", []byte(a))
				prefix(types.GetWithdrawRequestIndexKeyPrefix(a), "withdrawidx|%X|", []byte(a))
				prefix(types.GetOrderIndexKeyPrefix(a), "orderidx|%X|", []byte(a))
				i, j := ids[0], ids[1]
				k := types.GetDepositRequestIndexKey(a, i, j)
				put(k, "depositidx|%X|%d|%d|", []byte(a), i, j)
				if b, x, y := types.ParseDepositRequestIndexKey(k); !bytes.Equal(a, b) || x != i || y != j {
					v.fail("parse-deposit", fmt.Sprintf("address %X (%d bytes) pool %d request %d parsed as %X %d %d", []byte(a), len(a), i, j, []byte(b), x, y))
				}
				k = types.GetWithdrawRequestIndexKey(a, i, j)
				put(k, "withdrawidx|%X|%d|%d|", []byte(a), i, j)
				if b, x, y := types.ParseWithdrawRequestIndexKey(k); !bytes.Equal(a, b) || x != i || y != j {
					v.fail("parse-withdraw", fmt.Sprintf("address %X (%d bytes) pool %d request %d parsed as %X %d %d", []byte(a), len(a), i, j, []byte(b), x, y))
				}
				k = types.GetOrderIndexKey(a, i, j)
				put(k, "orderidx|%X|%d|%d|", []byte(a), i, j)
				if b, x, y := types.ParseOrderIndexKey(k); !bytes.Equal(a, b) || x != i || y != j {
					v.fail("parse-order", fmt.Sprintf("address %X (%d bytes) pair %d order %d parsed as %X %d %d", []byte(a), len(a), i, j, []byte(b), x, y))
				}
				k = types.GetNumMMOrdersKey(a, i)
				put(k, "mm|%X|%d|", []byte(a), i)
				if b, x := types.ParseNumMMOrdersKey(k); !bytes.Equal(a, b) || x != i {
					v.fail("parse-mm", fmt.Sprintf("address %X (%d bytes) pair %d parsed as %X %d", []byte(a), len(a), i, []byte(b), x))
				}
			}
			for _, a := range ds {
				if seen[a+"|d"] {
					continue
				}
				seen[a+"|d"] = true
				prefix(types.GetPairsByDenomIndexKeyPrefix(a), "bydenoms|%s|", a)
				for n, b := range ds {
					if n > 0 && b == ds[0] {
						continue
					}
					put(types.GetPairIndexKey(a, b), "pairidx|%s|%s|", a, b)
					prefix(types.GetPairsByDenomsIndexKeyPrefix(a, b), "bydenoms|%s|%s|", a, b)
					k := types.GetPairsByDenomsIndexKey(a, b, ids[0])
					put(k, "bydenoms|%s|%s|%d|", a, b, ids[0])
					if x, y, z := types.ParsePairsByDenomsIndexKey(k); x != a || y != b || z != ids[0] {
						v.fail("parse-denoms", fmt.Sprintf("denoms %q (%d) %q (%d) pair %d parsed as %q %q %d", a, len(a), b, len(b), ids[0], x, y, z))
					}
				}
			}
			kinds := []pre{
				{types.PairKeyPrefix, "pair|", nil}, {types.PoolKeyPrefix, "pool|", nil}, {types.DepositRequestKeyPrefix, "deposit|", nil},
				{types.WithdrawRequestKeyPrefix, "withdraw|", nil}, {types.OrderKeyPrefix, "order|", nil}, {types.NumMMOrdersKeyPrefix, "mm|", nil},
			}
			for _, k := range kinds {
				w := k.what
				pres = append(pres, pre{k.key, w, func(s string) bool { return strings.HasPrefix(s, w) }})
			}
			for i, a := range keys {
				if !bytes.Equal(a.key, a.own) {
					v.fail("alias", fmt.Sprintf("key of %s changed after it was built", a.what))
				}
				for _, b := range keys[:i] {
					if bytes.Equal(a.key, b.key) {
						v.fail("shared", fmt.Sprintf("%s and %s share the key %X", a.what, b.what, a.key))
					}
				}
				for _, p := range pres {
					if bytes.HasPrefix(a.own, p.key) != p.match(a.what) {
						v.fail("prefix", fmt.Sprintf("scan %s (prefix %X): key of %s (%X) seen=%v", p.what, p.key, a.what, a.own, bytes.HasPrefix(a.own, p.key)))
					}
				}
			}
		})
		v.hit(fmt.Sprintf("address lengths %d,%d", len(as[0]), len(as[1])))
	}
}

// ---- C19: bulk sends ----

type vbank struct {
	types.BankKeeper
	got    map[string]map[string]*big.Int
	calls  int
	failAt int
	err    error
	bad    string
}

func (b *vbank) move(from, to string, c sdk.Coins) {
	k := from + ">" + to
	if b.got[k] == nil {
		b.got[k] = map[string]*big.Int{}
	}
	for _, x := range c {
		if b.got[k][x.Denom] == nil {
			b.got[k][x.Denom] = new(big.Int)
		}
		b.got[k][x.Denom].Add(b.got[k][x.Denom], x.Amount.BigInt())
	}
}

func (b *vbank) step() error {
	b.calls++
	if b.calls == b.failAt {
		return b.err
	}
	return nil
}

func (b *vbank) SendCoins(_ context.Context, from, to sdk.AccAddress, c sdk.Coins) error {
	if err := b.step(); err != nil {
		return err
	}
	b.move(from.String(), to.String(), c)
	return nil
}

func (b *vbank) InputOutputCoins(_ context.Context, in banktypes.Input, outs []banktypes.Output) error {
	if err := b.step(); err != nil {
		return err
	}
	sum := sdk.Coins{}
	for _, o := range outs {
		b.move(in.Address, o.Address, o.Coins)
		sum = sum.Add(o.Coins...)
	}
	if !sum.Equal(in.Coins) {
		b.bad = fmt.Sprintf("input %s outputs %s", in.Coins, sum)
	}
	return nil
}

func TestVerif_C19(t *testing.T) {
	v := newVH(t, "random queues of up to 30 sends among 4 accounts over 4 denominations, some empty, zero, negative, unsorted or duplicated, run against a recording bank that fails at a random call", 60000, 60)
	defer v.done()
	boom := errors.New("boom")
	for v.more() {
		var acc []sdk.AccAddress
		for i := 0; i < 4; i++ {
			a := make([]byte, 20)
			a[v.r.Intn(20)] = byte(i + 1)
			acc = append(acc, a)
		}
		acc[3] = append(append([]byte{}, acc[2]...), 0)
		den := []string{"aaa", "aaab", "bbb", "zzz"}
		op := types.NewBulkSendCoinsOperation()
		want := map[string]map[string]*big.Int{}
		var log []string
		n := v.r.Intn(31)
		for i := 0; i < n; i++ {
			f, g := acc[v.r.Intn(4)], acc[v.r.Intn(4)]
			var cs sdk.Coins
			for _, d := range den {
				if v.r.Intn(2) == 0 {
					cs = append(cs, sdk.Coin{Denom: d, Amount: math.NewInt(int64(1 + v.r.Intn(1000)))})
				}
			}
			ok := len(cs) > 0
			if len(cs) > 0 {
				switch v.r.Intn(8) {
				case 0:
					cs[v.r.Intn(len(cs))].Amount = math.ZeroInt()
					ok = false
				case 1:
					cs[v.r.Intn(len(cs))].Amount = math.NewInt(-5)
					ok = false
				case 2:
					cs = append(cs, cs[0])
					ok = false
				}
			}
			before := cs.String()
			v.try(func() string { return "queue " + before }, func() { op.QueueSendCoins(f, g, cs) })
			if cs.String() != before {
				v.fail("caller-coins", fmt.Sprintf("queueing changed the caller's coins from %s to %s", before, cs))
			}
			log = append(log, fmt.Sprintf("%X>%X %s", []byte(f), []byte(g), before))
			if ok {
				k := f.String() + ">" + g.String()
				if want[k] == nil {
					want[k] = map[string]*big.Int{}
				}
				for _, c := range cs {
					if want[k][c.Denom] == nil {
						want[k][c.Denom] = new(big.Int)
					}
					want[k][c.Denom].Add(want[k][c.Denom], c.Amount.BigInt())
				}
			}
			// the caller may reuse its slice afterwards
			for j := range cs {
				cs[j].Amount = math.NewInt(777)
			}
		}
		b := &vbank{got: map[string]map[string]*big.Int{}, err: boom}
		if v.r.Intn(3) == 0 {
			b.failAt = 1 + v.r.Intn(8)
		}
		var err error
		v.try(func() string { return strings.Join(log, "; ") }, func() { err = op.Run(sdk.Context{}, b) })
		failed := b.failAt > 0 && b.calls >= b.failAt
		if failed && err == nil {
			v.fail("error-lost", fmt.Sprintf("transfer %d failed but Run returned no error; queued: %s", b.failAt, strings.Join(log, "; ")))
		}
		if !failed && err != nil {
			v.fail("error-made", fmt.Sprintf("Run returned %v though no transfer failed", err))
		}
		if b.bad != "" {
			v.fail("unbalanced", b.bad)
		}
		if !failed && fmt.Sprint(vflat(want)) != fmt.Sprint(vflat(b.got)) {
			v.fail("sums", fmt.Sprintf("moved %v, queued %v; queue: %s", vflat(b.got), vflat(want), strings.Join(log, "; ")))
		}
		v.hit(fmt.Sprintf("%d sends, %d transfers, failed=%v", n, b.calls, failed))
	}
}

func vflat(m map[string]map[string]*big.Int) map[string]string {
	o := map[string]string{}
	for k, x := range m {
		for d, n := range x {
			if n.Sign() != 0 {
				o[k+" "+d] = n.String()
			}
		}
	}
	return o
}

// ---- C21: stateless validation ----

func vaddr(s string) bool {
	a, err := sdk.AccAddressFromBech32(s)
	return err == nil && len(a) > 0
}

func vcoins(cs sdk.Coins) bool {
	last := ""
	for _, c := range cs {
		if c.Amount.IsNil() || !c.Amount.IsPositive() || sdk.ValidateDenom(c.Denom) != nil || last >= c.Denom {
			return false
		}
		last = c.Denom
	}
	return true
}

func vmax(cs sdk.Coins) bool {
	for _, c := range cs {
		if c.Amount.BigInt().Cmp(p10(40)) > 0 {
			return false
		}
	}
	return true
}

func vin(a math.Int) bool {
	return !a.IsNil() && a.BigInt().Cmp(bi(100)) >= 0 && a.BigInt().Cmp(p10(40)) <= 0
}

func TestVerif_C21(t *testing.T) {
	v := newVH(t, "messages of all ten kinds, well formed with some fields replaced by boundary or malformed values: whatever validation accepts must be well formed by an independent check", 300000, 60)
	defer v.done()
	good := sdk.AccAddress("somebody____________").String()
	for v.more() {
		k := v.r.Intn(10)
		mutRate := 1 + v.r.Intn(6)
		m := func() bool { return v.r.Intn(8) < mutRate && v.r.Intn(2) == 0 }
		addr := func() string {
			if m() {
				return []string{"", " ", "x", good + "x", good[:len(good)-1], strings.ToUpper(good), "cosmos1qypqxpq9qcrsszg2pvxq6rs0zqg3yyc5lzv7xu"}[v.r.Intn(7)]
			}
			return good
		}
		id := func() uint64 {
			if m() {
				return uint64(v.r.Intn(2))
			}
			return v.id() | 1
		}
		amt := func() math.Int {
			if m() {
				return toInt([]*big.Int{bi(0), bi(-1), bi(1), bi(99), bi(100), bi(101), p10(40), add(p10(40), bi(1)), bi(-100), sub(p10(40), bi(1))}[v.r.Intn(10)])
			}
			return toInt(add(v.num(39), bi(100)))
		}
		denom := func() string {
			if m() {
				return []string{"", "a", "ab", "abc", "1abc", "a b", "abc$", strings.Repeat("a", 128), strings.Repeat("a", 129)}[v.r.Intn(9)]
			}
			return []string{"aaa", "bbb", "ccc"}[v.r.Intn(3)]
		}
		coin := func() sdk.Coin { return sdk.Coin{Denom: denom(), Amount: amt()} }
		coins := func(n int) sdk.Coins {
			if m() {
				n = v.r.Intn(4)
			}
			var cs sdk.Coins
			for i := 0; i < n; i++ {
				cs = append(cs, coin())
			}
			if !m() && n == 2 {
				cs[0].Denom, cs[1].Denom = "aaa", "bbb"
			}
			return cs
		}
		price := func() math.LegacyDec {
			if m() {
				return toDec([]*big.Int{bi(0), bi(-1), bi(1), bi(99999), p10(4), p10(5), p10(38), add(p10(38), bi(1)), mul(bi(-1), p10(18)), p10(50)}[v.r.Intn(10)])
			}
			return toDec(v.price())
		}
		life := func() time.Duration {
			if m() {
				return []time.Duration{0, -1, -time.Hour, 1 << 62}[v.r.Intn(4)]
			}
			return time.Minute
		}
		dir := func() types.OrderDirection {
			if m() {
				return types.OrderDirection(v.r.Intn(5) - 1)
			}
			return types.OrderDirection(1 + v.r.Intn(2))
		}
		cover := func(d types.OrderDirection, p math.LegacyDec, a math.Int) math.Int {
			o := a
			if d == types.OrderDirectionBuy {
				o = toInt(cdiv(mul(p.BigInt(), a.BigInt()), bigP))
			}
			if m() {
				return amt()
			}
			return o.AddRaw(int64(v.r.Intn(3) - v.r.Intn(2)))
		}
		covered := func(d types.OrderDirection, p math.LegacyDec, a, o math.Int) bool {
			if d == types.OrderDirectionBuy {
				return mul(p.BigInt(), a.BigInt()).Cmp(mul(o.BigInt(), bigP)) <= 0
			}
			return o.BigInt().Cmp(a.BigInt()) >= 0
		}
		var msg sdk.HasValidateBasic
		var ok func() bool
		switch k {
		case 0:
			x := types.MsgCreatePair{Creator: addr(), BaseCoinDenom: denom(), QuoteCoinDenom: denom()}
			msg, ok = x, func() bool {
				return vaddr(x.Creator) && sdk.ValidateDenom(x.BaseCoinDenom) == nil && sdk.ValidateDenom(x.QuoteCoinDenom) == nil && x.BaseCoinDenom != x.QuoteCoinDenom
			}
		case 1:
			x := types.MsgCreatePool{Creator: addr(), PairId: id(), DepositCoins: coins(2)}
			msg, ok = x, func() bool {
				return vaddr(x.Creator) && x.PairId != 0 && vcoins(x.DepositCoins) && len(x.DepositCoins) == 2 && vmax(x.DepositCoins)
			}
		case 2:
			lo := price()
			hi, ini := toDec(add(lo.BigInt(), fdiv(lo.BigInt(), bi(int64(1+v.r.Intn(1200)))))), price()
			if v.r.Intn(4) > 0 {
				ini = toDec(fdiv(add(lo.BigInt(), hi.BigInt()), bi(2)))
			}
			if m() {
				hi = price()
			}
			x := types.MsgCreateRangedPool{Creator: addr(), PairId: id(), DepositCoins: coins(1 + v.r.Intn(2)), MinPrice: lo, MaxPrice: hi, InitialPrice: ini}
			msg, ok = x, func() bool {
				a, b, c := x.MinPrice.BigInt(), x.MaxPrice.BigInt(), x.InitialPrice.BigInt()
				return vaddr(x.Creator) && x.PairId != 0 && vcoins(x.DepositCoins) && (len(x.DepositCoins) == 1 || len(x.DepositCoins) == 2) && vmax(x.DepositCoins) &&
					a.Cmp(amm.MinPoolPrice.BigInt()) >= 0 && b.Cmp(amm.MaxPoolPrice.BigInt()) <= 0 && a.Cmp(c) <= 0 && c.Cmp(b) <= 0 && a.Cmp(b) < 0 &&
					// the gap ratio is a decimal rounded half to even
					mul(sub(b, a), mul(bi(2), p10(18))).Cmp(mul(a, sub(mul(bi(2), p10(15)), bi(1)))) >= 0
			}
		case 3:
			x := types.MsgDeposit{Depositor: addr(), PoolId: id(), DepositCoins: coins(1 + v.r.Intn(2))}
			msg, ok = x, func() bool {
				return vaddr(x.Depositor) && x.PoolId != 0 && vcoins(x.DepositCoins) && (len(x.DepositCoins) == 1 || len(x.DepositCoins) == 2)
			}
		case 4:
			x := types.MsgWithdraw{Withdrawer: addr(), PoolId: id(), PoolCoin: coin()}
			msg, ok = x, func() bool { return vaddr(x.Withdrawer) && x.PoolId != 0 && vcoins(sdk.Coins{x.PoolCoin}) }
		case 5, 6:
			d, p, a := dir(), price(), amt()
			oc := sdk.Coin{Denom: denom(), Amount: cover(d, p, a)}
			x := types.MsgLimitOrder{Orderer: addr(), PairId: id(), Direction: d, OfferCoin: oc, DemandCoinDenom: denom(), Price: p, Amount: a, OrderLifespan: life()}
			msg = x
			if k == 6 {
				msg = types.MsgMMOrder{Orderer: x.Orderer, PairId: x.PairId, Direction: d, OfferCoin: oc, DemandCoinDenom: x.DemandCoinDenom, Price: p, Amount: a, OrderLifespan: x.OrderLifespan}
			}
			ok = func() bool {
				return vaddr(x.Orderer) && x.PairId != 0 && (d == types.OrderDirectionBuy || d == types.OrderDirectionSell) && vcoins(sdk.Coins{oc}) && vin(oc.Amount) && vin(a) &&
					sdk.ValidateDenom(x.DemandCoinDenom) == nil && x.DemandCoinDenom != oc.Denom && p.IsPositive() && x.OrderLifespan >= 0 && covered(d, p, a, oc.Amount)
			}
		case 7:
			d, a := dir(), amt()
			x := types.MsgMarketOrder{Orderer: addr(), PairId: id(), Direction: d, OfferCoin: coin(), DemandCoinDenom: denom(), Amount: a, OrderLifespan: life()}
			msg, ok = x, func() bool {
				return vaddr(x.Orderer) && x.PairId != 0 && (d == types.OrderDirectionBuy || d == types.OrderDirectionSell) && vcoins(sdk.Coins{x.OfferCoin}) && vin(x.OfferCoin.Amount) && vin(a) &&
					sdk.ValidateDenom(x.DemandCoinDenom) == nil && x.DemandCoinDenom != x.OfferCoin.Denom && x.OrderLifespan >= 0
			}
		case 8:
			x := types.MsgCancelOrder{Orderer: addr(), PairId: id(), OrderId: id()}
			msg, ok = x, func() bool { return vaddr(x.Orderer) && x.PairId != 0 && x.OrderId != 0 }
		case 9:
			var ids []uint64
			for i := v.r.Intn(5); i > 0; i-- {
				ids = append(ids, uint64(v.r.Intn(12))+uint64(v.r.Intn(2)))
			}
			x := types.MsgCancelAllOrders{Orderer: addr(), PairIds: ids}
			msg, ok = x, func() bool {
				s := map[uint64]bool{0: true}
				for _, i := range ids {
					if s[i] {
						return false
					}
					s[i] = true
				}
				return vaddr(x.Orderer)
			}
		}
		var err error
		func() { // a panic refuses the message too
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			err = msg.ValidateBasic()
		}()
		if err == nil && !ok() {
			v.fail(fmt.Sprintf("accepted-%T", msg), fmt.Sprintf("accepted %+v", msg))
		}
		v.hit(fmt.Sprintf("%T accepted=%v", msg, err == nil))
	}
}
