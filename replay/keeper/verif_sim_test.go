package keeper_test

// Bounded replay harness (overlaid into x/dex/keeper): drives the real keeper
// on the real application with seeded random histories of messages and blocks,
// and checks every property of the keeper after each step with independent
// book-keeping. It backs the deductive checks with concrete failing inputs.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/app"
	"defund/x/dex/amm"
	"defund/x/dex/keeper"
	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

type vsim struct {
	t     *testing.T
	prop  string
	r     *rand.Rand
	app   *app.App
	k     keeper.Keeper
	ctx   sdk.Context
	acc   []sdk.AccAddress
	den   []string
	log   []string
	nfail map[string]int
	evals int
	seen  map[string]bool
	until time.Time
	pre   *vsnap
	st    map[string]int
}

type vkey struct{ a, b uint64 }

type vsnap struct {
	pairs  map[uint64]types.Pair
	pools  map[uint64]types.Pool
	deps   map[vkey]types.DepositRequest
	wds    map[vkey]types.WithdrawRequest
	orders map[vkey]types.Order
	mm     map[string]uint32
	bal    map[string]sdk.Coins
	lastPr uint64
	lastPo uint64
	sup    map[string]math.Int
}

func (v *vsim) snap() *vsnap {
	s := &vsnap{pairs: map[uint64]types.Pair{}, pools: map[uint64]types.Pool{}, deps: map[vkey]types.DepositRequest{}, wds: map[vkey]types.WithdrawRequest{},
		orders: map[vkey]types.Order{}, mm: map[string]uint32{}, bal: map[string]sdk.Coins{}, sup: map[string]math.Int{}}
	_ = v.k.IterateAllPairs(v.ctx, func(p types.Pair) (bool, error) { s.pairs[p.Id] = p; return false, nil })
	_ = v.k.IterateAllPools(v.ctx, func(p types.Pool) (bool, error) {
		s.pools[p.Id] = p
		s.sup[p.PoolCoinDenom] = v.app.BankKeeper.GetSupply(v.ctx, p.PoolCoinDenom).Amount
		return false, nil
	})
	_ = v.k.IterateAllDepositRequests(v.ctx, func(p types.DepositRequest) (bool, error) { s.deps[vkey{p.PoolId, p.Id}] = p; return false, nil })
	_ = v.k.IterateAllWithdrawRequests(v.ctx, func(p types.WithdrawRequest) (bool, error) { s.wds[vkey{p.PoolId, p.Id}] = p; return false, nil })
	_ = v.k.IterateAllOrders(v.ctx, func(p types.Order) (bool, error) { s.orders[vkey{p.PairId, p.Id}] = p; return false, nil })
	v.k.IterateAllNumMMOrders(v.ctx, func(a sdk.AccAddress, pairId uint64, n uint32) bool {
		s.mm[fmt.Sprintf("%s/%d", a, pairId)] = n
		return false
	})
	v.app.BankKeeper.IterateAllBalances(v.ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		s.bal[a.String()] = s.bal[a.String()].Add(c)
		return false
	})
	s.lastPr, s.lastPo = v.k.GetLastPairId(v.ctx), v.k.GetLastPoolId(v.ctx)
	return s
}

func (v *vsim) fail(prop, key, f string, a ...interface{}) {
	if prop != v.prop && prop != "*" {
		return
	}
	v.nfail[key]++
	if v.nfail[key] <= 2 {
		h := v.log
		if len(h) > 12 {
			h = h[len(h)-12:]
		}
		fmt.Printf("FAILING-INPUT %s|%s; history: %s\n", key, strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "), strings.Join(h, " ; "))
		v.t.Fail()
	}
}

func (v *vsim) setup(seed int64) {
	v.r = rand.New(rand.NewSource(seed))
	v.app = app.InitTestApp(true)
	v.ctx = v.app.BaseApp.NewContext(true).WithBlockHeader(cmtproto.Header{Height: 1, Time: time.Unix(1700000000, 0).UTC()})
	v.k = v.app.DexKeeper
	p := types.DefaultParams()
	p.MaxNumActivePoolsPerPair = uint32(2 + v.r.Intn(3))
	p.MaxNumMarketMakingOrdersPerPair = uint32(1 + v.r.Intn(3))
	p.WithdrawFeeRate = math.LegacyNewDecWithPrec(int64(v.r.Intn(4))*5, 3)
	p.BatchSize = uint32(1 + v.r.Intn(2))
	p.MinInitialDepositAmount = math.NewInt([]int64{1000, 1000000}[v.r.Intn(2)])
	p.MinInitialPoolCoinSupply = math.NewInt([]int64{1, 1000000000000}[v.r.Intn(2)])
	p.FeeCollectorAddress = sdk.AccAddress("fee_collector_______").String()
	p.DustCollectorAddress = sdk.AccAddress("dust_collector______").String()
	p.PairCreationFee = sdk.NewCoins(sdk.NewInt64Coin("stake", []int64{777, 1000000}[v.r.Intn(2)]))
	p.PoolCreationFee = sdk.NewCoins(sdk.NewInt64Coin("stake", []int64{12345, 2000000}[v.r.Intn(2)]))
	if v.r.Intn(4) == 0 {
		p.PoolCreationFee = p.PoolCreationFee.Add(sdk.NewInt64Coin("aaa", 55))
	}
	v.k.SetParams(v.ctx, p)
	v.acc, v.den = nil, []string{"aaa", "aaab", "ccc"} // one denomination is a prefix of another
	v.log = nil
	for i := 0; i < 4; i++ {
		a := make([]byte, 20)
		a[0] = byte(i + 1)
		if i == 3 { // an address the first 20 bytes of which are another address
			a = append(append([]byte{}, v.acc[2]...), make([]byte, 12)...)
		}
		v.acc = append(v.acc, a)
		cs := sdk.NewCoins()
		for _, d := range v.den {
			cs = cs.Add(sdk.NewCoin(d, math.NewInt(1_000_000_000_000)))
		}
		cs = cs.Add(p.PairCreationFee...)
		for j := 0; j < 12; j++ {
			cs = cs.Add(p.PairCreationFee...).Add(p.PoolCreationFee...)
		}
		if err := v.app.BankKeeper.MintCoins(v.ctx, types.ModuleName, cs); err != nil {
			panic(err)
		}
		if err := v.app.BankKeeper.SendCoinsFromModuleToAccount(v.ctx, types.ModuleName, a, cs); err != nil {
			panic(err)
		}
	}
}

func (v *vsim) pick(n int) int { return v.r.Intn(n) }

func (v *vsim) addr() sdk.AccAddress { return v.acc[v.pick(len(v.acc))] }

// attempt runs one message as a transaction does: all of it or nothing.
func (v *vsim) attempt(desc string, f func(ctx sdk.Context) error) (err error) {
	cctx, write := v.ctx.CacheContext()
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
				v.fail("*", "panic", "%s: %v", desc, r)
			}
		}()
		err = f(cctx)
	}()
	if err == nil {
		write()
	}
	res := "ok"
	if err != nil {
		res = "refused"
	}
	v.log = append(v.log, desc+" -> "+res)
	v.evals++
	k := desc
	if i := strings.IndexByte(k, '('); i > 0 {
		k = k[:i]
	}
	v.st[k+" "+res]++
	if err != nil && os.Getenv("VERIF_STATS") != "" {
		e := err.Error()
		if len(e) > 60 {
			e = e[len(e)-60:]
		}
		v.st[k+" err "+e]++
	}
	if !v.seen[k+res] {
		v.seen[k+res] = true
		if len(v.seen) <= 6 {
			fmt.Println("SAMPLE " + desc + " -> " + res)
		}
	}
	return err
}

type vmove struct {
	from, to string
	c        sdk.Coins
}

// moved checks that the balances changed by exactly these transfers.
func (v *vsim) moved(prop, key string, pre, post *vsnap, ms ...vmove) {
	want := map[string]map[string]*big.Int{}
	add := func(a, d string, n *big.Int, sg int64) {
		if a == "" {
			return
		}
		if want[a] == nil {
			want[a] = map[string]*big.Int{}
		}
		if want[a][d] == nil {
			want[a][d] = new(big.Int)
		}
		want[a][d].Add(want[a][d], new(big.Int).Mul(n, big.NewInt(sg)))
	}
	for _, m := range ms {
		for _, c := range m.c {
			add(m.from, c.Denom, c.Amount.BigInt(), -1)
			add(m.to, c.Denom, c.Amount.BigInt(), 1)
		}
	}
	for _, a := range vkeys(pre.bal, post.bal) {
		ds := map[string]bool{}
		for _, c := range pre.bal[a] {
			ds[c.Denom] = true
		}
		for _, c := range post.bal[a] {
			ds[c.Denom] = true
		}
		for d := range want[a] {
			ds[d] = true
		}
		for d := range ds {
			got := new(big.Int).Sub(post.bal[a].AmountOf(d).BigInt(), pre.bal[a].AmountOf(d).BigInt())
			w := new(big.Int)
			if want[a] != nil && want[a][d] != nil {
				w = want[a][d]
			}
			if got.Cmp(w) != 0 {
				v.fail(prop, key, "balance of %s in %s changed by %s, expected %s", a, d, got, w)
			}
		}
	}
}

func vkeys(a, b map[string]sdk.Coins) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func vjson(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return string(b)
}

func vlive(s types.OrderStatus) bool {
	return s == types.OrderStatusNotExecuted || s == types.OrderStatusNotMatched || s == types.OrderStatusPartiallyMatched
}

func vfin(s types.OrderStatus) bool {
	return s == types.OrderStatusCompleted || s == types.OrderStatusCanceled || s == types.OrderStatusExpired
}

func vtooSmall(amt math.Int, price math.LegacyDec) bool {
	n := new(big.Int).Mul(amt.BigInt(), price.BigInt())
	lim := new(big.Int).Mul(big.NewInt(100), big.NewInt(1_000_000_000_000_000_000))
	return amt.LT(math.NewInt(100)) || n.Cmp(lim) < 0
}

// vsameOrders: every order except those named is unchanged.
func (v *vsim) sameOrders(prop, key string, pre, post *vsnap, except map[vkey]bool) {
	for k, o := range pre.orders {
		if except[k] {
			continue
		}
		if vjson(o) != vjson(post.orders[k]) {
			v.fail(prop, key, "order %v changed from %s to %s", k, vjson(o), vjson(post.orders[k]))
		}
	}
	for k := range post.orders {
		if _, ok := pre.orders[k]; !ok && !except[k] {
			v.fail(prop, key, "order %v appeared", k)
		}
	}
}

func (v *vsim) pools(pre *vsnap, pair uint64) (active int, basic bool) {
	for _, p := range pre.pools {
		if p.PairId == pair && !p.Disabled {
			active++
			if p.Type == types.PoolTypeBasic {
				basic = true
			}
		}
	}
	return
}

func (v *vsim) doCreatePair() {
	pre := v.snap()
	a := v.addr()
	b, q := v.den[v.pick(3)], v.den[v.pick(3)]
	msg := types.NewMsgCreatePair(a, b, q)
	if msg.ValidateBasic() != nil {
		return
	}
	fee := v.k.GetPairCreationFee(v.ctx)
	var pair types.Pair
	err := v.attempt(fmt.Sprintf("CreatePair(%s,%s)", b, q), func(ctx sdk.Context) (e error) { pair, e = v.k.CreatePair(ctx, msg); return })
	dup := false
	for _, p := range pre.pairs {
		if p.BaseCoinDenom == b && p.QuoteCoinDenom == q {
			dup = true
		}
	}
	if err != nil {
		if !dup && pre.bal[a.String()].IsAllGTE(fee) {
			v.fail("C15", "pair-refused", "pair %s/%s refused: %v", b, q, err)
		}
		return
	}
	post := v.snap()
	if dup {
		v.fail("C15", "pair-dup", "a second pair %s/%s was created", b, q)
	}
	if pair.Id != pre.lastPr+1 || post.lastPr != pair.Id {
		v.fail("C15", "pair-id", "pair id %d after last id %d (counter now %d)", pair.Id, pre.lastPr, post.lastPr)
	}
	if vjson(post.pairs[pair.Id]) != vjson(pair) || pair.BaseCoinDenom != b || pair.QuoteCoinDenom != q || pair.CurrentBatchId != 1 || pair.LastPrice != nil {
		v.fail("C15", "pair-record", "stored pair %s", vjson(post.pairs[pair.Id]))
	}
	if p, ok := v.k.GetPairByDenoms(v.ctx, b, q); !ok || p.Id != pair.Id {
		v.fail("C15", "pair-index", "pair %d not found by its denoms", pair.Id)
	}
	v.moved("C15", "pair-fee", pre, post, vmove{a.String(), v.k.GetFeeCollector(v.ctx).String(), fee})
}

func (v *vsim) somePair(pre *vsnap) (types.Pair, bool) {
	if len(pre.pairs) == 0 {
		return types.Pair{}, false
	}
	return pre.pairs[uint64(1+v.pick(len(pre.pairs)))], true
}

func (v *vsim) amtOf() math.Int {
	return math.NewInt([]int64{100, 1000, 12345, 1_000_000, 7_654_321, 100_000_000, 3_000_000_000}[v.pick(7)] + int64(v.pick(100)))
}

func (v *vsim) checkNewPool(pre, post *vsnap, pool types.Pool, a sdk.AccAddress, pair types.Pair, dep sdk.Coins) {
	if pool.Id != pre.lastPo+1 || post.lastPo != pool.Id {
		v.fail("C15", "pool-id", "pool id %d after last id %d (counter now %d)", pool.Id, pre.lastPo, post.lastPo)
	}
	if vjson(post.pools[pool.Id]) != vjson(pool) || pool.PairId != pair.Id || pool.Disabled || pool.Creator != a.String() {
		v.fail("C15", "pool-record", "stored pool %s", vjson(post.pools[pool.Id]))
	}
	if p, ok := v.k.GetPoolByReserveAddress(v.ctx, pool.GetReserveAddressAcc()); !ok || p.Id != pool.Id {
		v.fail("C15", "pool-reserve-index", "pool %d not found by its reserve address", pool.Id)
	}
	for id, p := range pre.pools {
		if p.ReserveAddress == pool.ReserveAddress || p.PoolCoinDenom == pool.PoolCoinDenom {
			v.fail("C15", "pool-unique", "pools %d and %d share a reserve address or coin", id, pool.Id)
		}
	}
	ps := post.sup[pool.PoolCoinDenom]
	if ps.LT(v.k.GetMinInitialPoolCoinSupply(v.ctx)) {
		v.fail("C15", "pool-supply", "initial pool coin supply %s below the minimum %s", ps, v.k.GetMinInitialPoolCoinSupply(v.ctx))
	}
	v.moved("C15", "pool-moves", pre, post,
		vmove{a.String(), pool.ReserveAddress, dep},
		vmove{a.String(), v.k.GetFeeCollector(v.ctx).String(), v.k.GetPoolCreationFee(v.ctx)},
		vmove{"", a.String(), sdk.NewCoins(sdk.NewCoin(pool.PoolCoinDenom, ps))})
}

func (v *vsim) doCreatePool() {
	pre := v.snap()
	pair, ok := v.somePair(pre)
	if !ok {
		return
	}
	a := v.addr()
	dep := sdk.NewCoins(sdk.NewCoin(pair.BaseCoinDenom, v.amtOf()), sdk.NewCoin(pair.QuoteCoinDenom, v.amtOf()))
	msg := types.NewMsgCreatePool(a, pair.Id, dep)
	if msg.ValidateBasic() != nil {
		return
	}
	var pool types.Pool
	err := v.attempt(fmt.Sprintf("CreatePool(%d,%s)", pair.Id, dep), func(ctx sdk.Context) (e error) { pool, e = v.k.CreatePool(ctx, msg); return })
	if err != nil {
		return
	}
	post := v.snap()
	n, basic := v.pools(pre, pair.Id)
	if basic {
		v.fail("C15", "pool-second-basic", "a second active basic pool in pair %d", pair.Id)
	}
	if n >= int(v.k.GetMaxNumActivePoolsPerPair(v.ctx)) {
		v.fail("C15", "pool-limit", "pool number %d of pair %d exceeds the limit %d", n+1, pair.Id, v.k.GetMaxNumActivePoolsPerPair(v.ctx))
	}
	for _, c := range dep {
		if c.Amount.LT(v.k.GetMinInitialDepositAmount(v.ctx)) {
			v.fail("C15", "pool-deposit", "initial deposit %s below the minimum", c)
		}
	}
	if pool.Type != types.PoolTypeBasic {
		v.fail("C15", "pool-type", "type %s", pool.Type)
	}
	v.checkNewPool(pre, post, pool, a, pair, dep)
}

func (v *vsim) price() math.LegacyDec {
	p := math.LegacyNewDecWithPrec(int64(5000+v.pick(10000)), 4) // 0.5 .. 1.5
	if v.pick(4) != 0 {
		p = amm.PriceToDownTick(p, int(v.k.GetTickPrecision(v.ctx)))
	}
	return p
}

func (v *vsim) doCreateRanged() {
	pre := v.snap()
	pair, ok := v.somePair(pre)
	if !ok {
		return
	}
	a := v.addr()
	tp := int(v.k.GetTickPrecision(v.ctx))
	mid := v.price()
	lo := amm.PriceToDownTick(mid.Mul(math.LegacyNewDecWithPrec(int64(80+v.pick(20)), 2)), tp)
	hi := amm.PriceToUpTick(mid.Mul(math.LegacyNewDecWithPrec(int64(101+v.pick(30)), 2)), tp)
	switch v.pick(6) {
	case 0:
		mid = lo
	case 1:
		mid = hi
	case 2:
		lo = lo.Add(math.LegacySmallestDec())
	}
	var dep sdk.Coins
	if v.pick(4) > 0 {
		dep = dep.Add(sdk.NewCoin(pair.BaseCoinDenom, v.amtOf()))
	}
	if v.pick(4) > 0 || dep.Empty() {
		dep = dep.Add(sdk.NewCoin(pair.QuoteCoinDenom, v.amtOf()))
	}
	msg := types.NewMsgCreateRangedPool(a, pair.Id, dep, lo, hi, mid)
	if msg.ValidateBasic() != nil {
		return
	}
	var pool types.Pool
	err := v.attempt(fmt.Sprintf("CreateRangedPool(%d,%s,%s,%s,%s)", pair.Id, dep, lo, hi, mid), func(ctx sdk.Context) (e error) { pool, e = v.k.CreateRangedPool(ctx, msg); return })
	if err != nil {
		return
	}
	post := v.snap()
	n, _ := v.pools(pre, pair.Id)
	if n >= int(v.k.GetMaxNumActivePoolsPerPair(v.ctx)) {
		v.fail("C15", "pool-limit", "pool number %d of pair %d exceeds the limit %d", n+1, pair.Id, v.k.GetMaxNumActivePoolsPerPair(v.ctx))
	}
	for _, p := range []math.LegacyDec{lo, hi, mid} {
		if !amm.PriceToDownTick(p, tp).Equal(p) {
			v.fail("C15", "pool-ticks", "price %s is not a tick", p)
		}
	}
	if pool.Type != types.PoolTypeRanged || pool.MinPrice == nil || pool.MaxPrice == nil || !pool.MinPrice.Equal(lo) || !pool.MaxPrice.Equal(hi) {
		v.fail("C15", "pool-range", "recorded range %v..%v for %s..%s", pool.MinPrice, pool.MaxPrice, lo, hi)
	}
	got := post.bal[pool.ReserveAddress].Sub(pre.bal[pool.ReserveAddress]...)
	if !dep.IsAllGTE(got) {
		v.fail("C15", "pool-took", "reserve got %s of a deposit of %s", got, dep)
	}
	min := v.k.GetMinInitialDepositAmount(v.ctx)
	if got.AmountOf(pair.BaseCoinDenom).LT(min) && got.AmountOf(pair.QuoteCoinDenom).LT(min) {
		v.fail("C15", "pool-deposit", "both initial reserves %s below the minimum %s", got, min)
	}
	v.checkNewPool(pre, post, pool, a, pair, got)
}

func (v *vsim) somePool(pre *vsnap) (types.Pool, bool) {
	if len(pre.pools) == 0 {
		return types.Pool{}, false
	}
	return pre.pools[uint64(1+v.pick(len(pre.pools)))], true
}

func (v *vsim) doDeposit() {
	pre := v.snap()
	pool, ok := v.somePool(pre)
	if !ok {
		return
	}
	pair := pre.pairs[pool.PairId]
	a := v.addr()
	var dep sdk.Coins
	if v.pick(5) > 0 || pool.Type == types.PoolTypeBasic {
		dep = dep.Add(sdk.NewCoin(pair.BaseCoinDenom, v.amtOf()))
	}
	if v.pick(5) > 0 || dep.Empty() || pool.Type == types.PoolTypeBasic {
		dep = dep.Add(sdk.NewCoin(pair.QuoteCoinDenom, v.amtOf()))
	}
	if v.pick(4) == 0 { // dust, which mints nothing
		dep = nil
		for _, d := range []string{pair.BaseCoinDenom, pair.QuoteCoinDenom} {
			dep = dep.Add(sdk.NewCoin(d, math.OneInt()))
		}
	}
	msg := types.NewMsgDeposit(a, pool.Id, dep)
	if msg.ValidateBasic() != nil {
		return
	}
	var req types.DepositRequest
	err := v.attempt(fmt.Sprintf("Deposit(%d,%s)", pool.Id, dep), func(ctx sdk.Context) (e error) { req, e = v.k.Deposit(ctx, msg); return })
	if err != nil {
		return
	}
	post := v.snap()
	if pool.Disabled {
		v.fail("C06", "deposit-disabled", "pool %d is disabled", pool.Id)
	}
	v.moved("C06", "deposit-escrow", pre, post, vmove{a.String(), types.GlobalEscrowAddress.String(), dep})
	if _, dup := pre.deps[vkey{pool.Id, req.Id}]; dup || req.Id != pool.LastDepositRequestId+1 || post.pools[pool.Id].LastDepositRequestId != req.Id {
		v.fail("C06", "deposit-id", "request id %d after %d", req.Id, pool.LastDepositRequestId)
	}
	if st := post.deps[vkey{pool.Id, req.Id}]; vjson(st) != vjson(req) || st.Status != types.RequestStatusNotExecuted || st.Depositor != a.String() || !st.DepositCoins.Equal(dep) || !st.AcceptedCoins.Empty() {
		v.fail("C06", "deposit-record", "stored request %s", vjson(st))
	}
}

func (v *vsim) doWithdraw() {
	pre := v.snap()
	pool, ok := v.somePool(pre)
	if !ok {
		return
	}
	a := v.addr()
	for i := 0; i < 4; i++ {
		if pre.bal[a.String()].AmountOf(pool.PoolCoinDenom).IsPositive() {
			break
		}
		a = v.addr()
	}
	have := pre.bal[a.String()].AmountOf(pool.PoolCoinDenom)
	amt := have
	switch v.pick(4) {
	case 0:
		amt = math.OneInt()
	case 1:
		amt = have.QuoRaw(int64(2 + v.pick(5)))
	}
	if !amt.IsPositive() {
		return
	}
	den := pool.PoolCoinDenom
	if v.pick(12) == 0 {
		den = "aaa"
	}
	c := sdk.NewCoin(den, amt)
	msg := types.NewMsgWithdraw(a, pool.Id, c)
	if msg.ValidateBasic() != nil {
		return
	}
	var req types.WithdrawRequest
	err := v.attempt(fmt.Sprintf("Withdraw(%d,%s)", pool.Id, c), func(ctx sdk.Context) (e error) { req, e = v.k.Withdraw(ctx, msg); return })
	if err != nil {
		return
	}
	post := v.snap()
	if pool.Disabled || den != pool.PoolCoinDenom {
		v.fail("C06", "withdraw-refuse", "pool %d disabled=%v coin %s", pool.Id, pool.Disabled, c)
	}
	v.moved("C06", "withdraw-escrow", pre, post, vmove{a.String(), types.GlobalEscrowAddress.String(), sdk.NewCoins(c)})
	if _, dup := pre.wds[vkey{pool.Id, req.Id}]; dup || req.Id != pool.LastWithdrawRequestId+1 || post.pools[pool.Id].LastWithdrawRequestId != req.Id {
		v.fail("C06", "withdraw-id", "request id %d after %d", req.Id, pool.LastWithdrawRequestId)
	}
	if st := post.wds[vkey{pool.Id, req.Id}]; vjson(st) != vjson(req) || st.Status != types.RequestStatusNotExecuted || st.Withdrawer != a.String() || !st.PoolCoin.IsEqual(c) {
		v.fail("C06", "withdraw-record", "stored request %s", vjson(st))
	}
}

// doDonate sends coins of any denomination to the reserve account of a pool, as anybody may.
func (v *vsim) doDonate() {
	pool, ok := v.somePool(v.snap())
	if !ok {
		return
	}
	a, c := v.addr(), sdk.NewCoin(v.den[v.pick(len(v.den))], v.amtOf())
	_ = v.attempt(fmt.Sprintf("Send(%s to reserve of pool %d)", c, pool.Id), func(ctx sdk.Context) error {
		return v.app.BankKeeper.SendCoins(ctx, a, sdk.MustAccAddressFromBech32(pool.ReserveAddress), sdk.NewCoins(c))
	})
}

// doDrain gathers every pool coin of a pool in one account and withdraws them all.
func (v *vsim) doDrain() {
	pre := v.snap()
	pool, ok := v.somePool(pre)
	if !ok {
		return
	}
	a := v.addr()
	for _, b := range v.acc {
		if c := sdk.NewCoin(pool.PoolCoinDenom, pre.bal[b.String()].AmountOf(pool.PoolCoinDenom)); c.IsPositive() && !b.Equals(a) {
			_ = v.attempt(fmt.Sprintf("Send(%s)", c), func(ctx sdk.Context) error { return v.app.BankKeeper.SendCoins(ctx, b, a, sdk.NewCoins(c)) })
		}
	}
	msg := types.NewMsgWithdraw(a, pool.Id, sdk.NewCoin(pool.PoolCoinDenom, v.snap().bal[a.String()].AmountOf(pool.PoolCoinDenom)))
	if msg.ValidateBasic() != nil {
		return
	}
	_ = v.attempt(fmt.Sprintf("Withdraw(%d,%s) all", pool.Id, msg.PoolCoin), func(ctx sdk.Context) (e error) { _, e = v.k.Withdraw(ctx, msg); return })
}

// ceilMul is price*amt rounded up, floorMul rounded down.
func vceil(p math.LegacyDec, amt math.Int) math.Int {
	n := new(big.Int).Mul(p.BigInt(), amt.BigInt())
	one := big.NewInt(1_000_000_000_000_000_000)
	q, r := new(big.Int).DivMod(n, one, new(big.Int))
	if r.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return math.NewIntFromBigInt(q)
}

func (v *vsim) doOrder() {
	pre := v.snap()
	pair, ok := v.somePair(pre)
	if !ok {
		return
	}
	a := v.addr()
	buy := v.pick(2) == 0
	typ := []types.OrderType{types.OrderTypeLimit, types.OrderTypeLimit, types.OrderTypeMarket, types.OrderTypeMM, types.OrderTypeMM}[v.pick(5)]
	tp := int(v.k.GetTickPrecision(v.ctx))
	ratio := v.k.GetMaxPriceLimitRatio(v.ctx)
	one := math.LegacyOneDec()
	price := v.price()
	if pair.LastPrice != nil {
		price = pair.LastPrice.Mul(math.LegacyNewDecWithPrec(int64(950+v.pick(101)), 3))
		switch v.pick(10) {
		case 0:
			price = pair.LastPrice.Mul(one.Add(ratio)).Add(math.LegacyNewDecWithPrec(int64(v.pick(3)), 3))
		case 1:
			price = pair.LastPrice.Mul(one.Sub(ratio)).Sub(math.LegacyNewDecWithPrec(int64(v.pick(3)), 3))
		case 2:
			price = pair.LastPrice.Mul(math.LegacyNewDecWithPrec(int64(80+v.pick(40)), 2))
		}
	}
	amt := v.amtOf()
	dir, offD, demD := types.OrderDirectionSell, pair.BaseCoinDenom, pair.QuoteCoinDenom
	if buy {
		dir, offD, demD = types.OrderDirectionBuy, pair.QuoteCoinDenom, pair.BaseCoinDenom
	}
	var want math.LegacyDec // effective price
	if typ == types.OrderTypeMarket {
		if pair.LastPrice == nil {
			want = price
		} else if buy {
			want = amm.PriceToDownTick(pair.LastPrice.Mul(one.Add(ratio)), tp)
		} else {
			want = amm.PriceToUpTick(pair.LastPrice.Mul(one.Sub(ratio)), tp)
		}
	} else if buy {
		want = amm.PriceToDownTick(price, tp)
	} else {
		want = amm.PriceToUpTick(price, tp)
	}
	off := amt
	if buy {
		off = vceil(price, amt)
		if typ == types.OrderTypeMarket {
			off = vceil(want, amt)
		}
	}
	off = off.AddRaw(int64(v.pick(3)) * int64(v.pick(20)))
	if v.pick(8) == 0 {
		off = off.SubRaw(1)
	}
	if v.pick(15) == 0 {
		offD, demD = demD, offD
	}
	life := time.Duration([]int{0, 3, 6, 9, 60}[v.pick(5)]) * time.Second
	if v.pick(15) == 0 {
		life = v.k.GetMaxOrderLifespan(v.ctx) + time.Second
	}
	if !off.IsPositive() {
		return
	}
	oc := sdk.NewCoin(offD, off)
	if v.pick(15) == 0 { // more than the orderer has
		oc.Amount = pre.bal[a.String()].AmountOf(offD).AddRaw(1)
	}
	var order types.Order
	var run func(ctx sdk.Context) error
	switch typ {
	case types.OrderTypeLimit:
		m := types.NewMsgLimitOrder(a, pair.Id, dir, oc, demD, price, amt, life)
		if m.ValidateBasic() != nil {
			return
		}
		run = func(ctx sdk.Context) (e error) { order, e = v.k.LimitOrder(ctx, m); return }
	case types.OrderTypeMM:
		m := types.NewMsgMMOrder(a, pair.Id, dir, oc, demD, price, amt, life)
		if m.ValidateBasic() != nil {
			return
		}
		run = func(ctx sdk.Context) (e error) { order, e = v.k.MMOrder(ctx, m); return }
	case types.OrderTypeMarket:
		m := types.NewMsgMarketOrder(a, pair.Id, dir, oc, demD, amt, life)
		if m.ValidateBasic() != nil {
			return
		}
		run = func(ctx sdk.Context) (e error) { order, e = v.k.MarketOrder(ctx, m); return }
	}
	err := v.attempt(fmt.Sprintf("Order(%s,pair=%d,%s,%s,price=%s,amt=%s,life=%s,last=%v)", typ, pair.Id, dir, oc, price, amt, life, pair.LastPrice), run)
	if err != nil {
		return
	}
	post := v.snap()
	bad := func(key, f string, x ...interface{}) { v.fail("C09", key, f, x...) }
	if oc.Amount.GT(pre.bal[a.String()].AmountOf(offD)) {
		bad("order-funds", "offer %s exceeds the balance", oc)
	}
	if life > v.k.GetMaxOrderLifespan(v.ctx) {
		bad("order-lifespan", "lifespan %s", life)
	}
	if buy && (offD != pair.QuoteCoinDenom || demD != pair.BaseCoinDenom) || !buy && (offD != pair.BaseCoinDenom || demD != pair.QuoteCoinDenom) {
		bad("order-denoms", "%s order offering %s for %s in pair %s/%s", dir, offD, demD, pair.BaseCoinDenom, pair.QuoteCoinDenom)
	}
	if !order.Price.Equal(want) {
		bad("order-price", "effective price %s, expected %s", order.Price, want)
	}
	if typ != types.OrderTypeMarket && pair.LastPrice != nil {
		if price.GT(pair.LastPrice.Mul(one.Add(ratio))) || price.LT(pair.LastPrice.Mul(one.Sub(ratio))) {
			bad("order-band", "price %s accepted with last price %s", price, pair.LastPrice)
		}
	}
	if typ == types.OrderTypeMarket && pair.LastPrice == nil {
		bad("order-market", "a market order without a last price")
	}
	exact := amt
	if buy {
		exact = vceil(order.Price, amt)
	}
	if !order.OfferCoin.Amount.Equal(exact) || order.OfferCoin.Denom != offD || !order.RemainingOfferCoin.IsEqual(order.OfferCoin) {
		bad("order-offer", "offer %s remaining %s, needed %s", order.OfferCoin, order.RemainingOfferCoin, exact)
	}
	if exact.GT(oc.Amount) {
		bad("order-cover", "the offer %s does not cover %s", oc, exact)
	}
	if vtooSmall(amt, order.Price) {
		bad("order-small", "amount %s at %s is too small", amt, order.Price)
	}
	v.moved("C09", "order-escrow", pre, post, vmove{a.String(), pair.EscrowAddress, sdk.NewCoins(sdk.NewCoin(offD, exact))})
	v.moved("C03", "order-escrow", pre, post, vmove{a.String(), pair.EscrowAddress, sdk.NewCoins(order.RemainingOfferCoin)})
	if order.Id != pair.LastOrderId+1 || post.pairs[pair.Id].LastOrderId != order.Id || order.BatchId != pair.CurrentBatchId || order.Status != types.OrderStatusNotExecuted ||
		order.Type != typ || order.Direction != dir || order.Orderer != a.String() || !order.Amount.Equal(amt) || !order.OpenAmount.Equal(amt) || !order.ReceivedCoin.IsZero() || order.ReceivedCoin.Denom != demD ||
		!order.ExpireAt.Equal(v.ctx.BlockTime().Add(life)) {
		bad("order-record", "recorded order %s (last order id %d, batch %d)", vjson(order), pair.LastOrderId, pair.CurrentBatchId)
	}
	if vjson(post.orders[vkey{pair.Id, order.Id}]) != vjson(order) {
		bad("order-stored", "stored %s returned %s", vjson(post.orders[vkey{pair.Id, order.Id}]), vjson(order))
	}
	v.sameOrders("C09", "order-others", pre, post, map[vkey]bool{{pair.Id, order.Id}: true})
	if typ == types.OrderTypeMM {
		if n := post.mm[fmt.Sprintf("%s/%d", a, pair.Id)]; n > v.k.GetMaxNumMarketMakingOrdersPerPair(v.ctx) {
			v.fail("C14", "mm-limit", "%d market-making orders of %s in pair %d with a limit of %d", n, a, pair.Id, v.k.GetMaxNumMarketMakingOrdersPerPair(v.ctx))
		}
	}
}

func (v *vsim) someOrder(pre *vsnap) (types.Order, bool) {
	var ks []vkey
	for k := range pre.orders {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return types.Order{}, false
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].a < ks[j].a || ks[i].a == ks[j].a && ks[i].b < ks[j].b })
	return pre.orders[ks[v.pick(len(ks))]], true
}

func (v *vsim) doCancel() {
	pre := v.snap()
	o, ok := v.someOrder(pre)
	if !ok {
		return
	}
	a := sdk.MustAccAddressFromBech32(o.Orderer)
	if v.pick(4) == 0 {
		a = v.addr()
	}
	msg := types.NewMsgCancelOrder(a, o.PairId, o.Id)
	err := v.attempt(fmt.Sprintf("Cancel(%d/%d by %s of %s %s)", o.PairId, o.Id, a, o.Orderer, o.Status), func(ctx sdk.Context) error { return v.k.CancelOrder(ctx, msg) })
	may := a.String() == o.Orderer && o.Status != types.OrderStatusCanceled && o.BatchId < pre.pairs[o.PairId].CurrentBatchId
	if err != nil {
		if may && vlive(o.Status) {
			v.fail("C10", "cancel-refused", "a live order %d/%d of an earlier batch could not be canceled by its owner: %v", o.PairId, o.Id, err)
		}
		return
	}
	post := v.snap()
	if !may {
		v.fail("C10", "cancel-allowed", "order %d/%d of %s (batch %d, status %s) canceled by %s in batch %d", o.PairId, o.Id, o.Orderer, o.BatchId, o.Status, a, pre.pairs[o.PairId].CurrentBatchId)
	}
	k := vkey{o.PairId, o.Id}
	v.canceled("C10", pre, post, map[vkey]bool{k: true})
}

// canceled: exactly the live orders of the set are canceled and refunded.
func (v *vsim) canceled(prop string, pre, post *vsnap, set map[vkey]bool) {
	var ms []vmove
	ex := map[vkey]bool{}
	for k := range set {
		o := pre.orders[k]
		if !vlive(o.Status) {
			continue
		}
		ex[k] = true
		ms = append(ms, vmove{pre.pairs[o.PairId].EscrowAddress, o.Orderer, sdk.NewCoins(o.RemainingOfferCoin)})
		n := post.orders[k]
		w := o
		w.Status = types.OrderStatusCanceled
		if vjson(n) != vjson(w) {
			v.fail(prop, "cancel-record", "order %v is now %s", k, vjson(n))
		}
	}
	v.moved(prop, "cancel-refund", pre, post, ms...)
	v.moved("C03", "cancel-refund", pre, post, ms...)
	v.sameOrders(prop, "cancel-others", pre, post, ex)
}

func (v *vsim) doCancelAll() {
	pre := v.snap()
	a := v.addr()
	var ids []uint64
	for id := range pre.pairs {
		if v.pick(3) == 0 {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if v.pick(10) == 0 {
		ids = append(ids, 77)
	}
	msg := types.NewMsgCancelAllOrders(a, ids)
	if msg.ValidateBasic() != nil {
		return
	}
	err := v.attempt(fmt.Sprintf("CancelAll(%s,%v)", a, ids), func(ctx sdk.Context) error { return v.k.CancelAllOrders(ctx, msg) })
	known := true
	for _, id := range ids {
		if _, ok := pre.pairs[id]; !ok {
			known = false
		}
	}
	if err != nil {
		if known {
			v.fail("C10", "cancelall-refused", "%v", err)
		}
		return
	}
	if !known {
		v.fail("C10", "cancelall-unknown", "an unknown pair in %v accepted", ids)
	}
	post := v.snap()
	set := map[vkey]bool{}
	for k, o := range pre.orders {
		in := len(ids) == 0
		for _, id := range ids {
			in = in || id == o.PairId
		}
		if in && o.Orderer == a.String() && o.BatchId < pre.pairs[o.PairId].CurrentBatchId {
			set[k] = true
		}
	}
	v.canceled("C10", pre, post, set)
}

func (v *vsim) doEndBlock() {
	pre := v.snap()
	p := v.k.GetParams(v.ctx)
	run := v.ctx.BlockHeight()%int64(p.BatchSize) == 0
	if v.attempt(fmt.Sprintf("EndBlock(%d)", v.ctx.BlockHeight()), func(ctx sdk.Context) error { dex.EndBlocker(ctx, v.k); return nil }) != nil {
		return
	}
	post := v.snap()
	if !run {
		v.moved("C20", "batch-early", pre, post)
		v.sameOrders("C20", "batch-early", pre, post, nil)
		return
	}
	now := v.ctx.BlockTime()
	var ms []vmove
	recv := map[string]sdk.Coins{}
	put := func(a string, c sdk.Coins) { recv[a] = recv[a].Add(c...) }
	for k, o := range pre.orders {
		n, ok := post.orders[k]
		if !ok {
			v.fail("C20", "order-lost", "order %v vanished at the end of a batch", k)
			continue
		}
		if vfin(o.Status) {
			if vjson(o) != vjson(n) {
				v.fail("C20", "dead-traded", "a finished order changed from %s to %s", vjson(o), vjson(n))
				v.fail("C03", "dead-traded", "a finished order changed from %s to %s", vjson(o), vjson(n))
			}
			continue
		}
		got := n.ReceivedCoin.Sub(o.ReceivedCoin)
		paid := o.RemainingOfferCoin.Sub(n.RemainingOfferCoin)
		m := o.OpenAmount.Sub(n.OpenAmount)
		put(o.Orderer, sdk.NewCoins(got))
		v.st["order "+o.Type.String()+" "+o.Status.String()+" to "+n.Status.String()]++
		if vfin(n.Status) {
			put(o.Orderer, sdk.NewCoins(n.RemainingOfferCoin))
		}
		if m.IsZero() != paid.IsZero() || m.IsZero() && !got.IsZero() {
			v.fail("C03", "order-trade", "order %v matched %s, paid %s, received %s", k, m, paid, got)
		}
		if o.Direction == types.OrderDirectionSell && !paid.Amount.Equal(m) || o.Direction == types.OrderDirectionBuy && !got.Amount.Equal(m) {
			v.fail("C03", "order-trade", "order %v matched %s, paid %s, received %s", k, m, paid, got)
		}
		if (n.Status == types.OrderStatusCompleted) != n.OpenAmount.IsZero() {
			v.fail("C03", "order-complete", "order %v is %s with %s open", k, n.Status, n.OpenAmount)
		}
		if o.Status != types.OrderStatusNotExecuted && !o.ExpireAt.After(now) && (!m.IsZero() || n.Status != types.OrderStatusExpired) {
			v.fail("C20", "expired-traded", "order %v expired at %s but at %s it matched %s and is %s", k, o.ExpireAt, now, m, n.Status)
		}
		if vlive(n.Status) && (!n.ExpireAt.After(now) || vtooSmall(n.OpenAmount, n.Price)) {
			v.fail("C20", "still-live", "order %v (expires %s, open %s at %s) is still %s at %s", k, n.ExpireAt, n.OpenAmount, n.Price, n.Status, now)
		}
		if n.Status == types.OrderStatusExpired && n.ExpireAt.After(now) && !vtooSmall(n.OpenAmount, n.Price) || n.Status == types.OrderStatusCanceled {
			v.fail("C20", "ended-early", "order %v (expires %s, open %s) is %s at %s", k, n.ExpireAt, n.OpenAmount, n.Status, now)
		}
		if n.Status == types.OrderStatusNotExecuted || (n.Status == types.OrderStatusPartiallyMatched) != (vlive(n.Status) && n.OpenAmount.LT(n.Amount)) {
			v.fail("C03", "order-status", "order %v is %s with %s of %s open", k, n.Status, n.OpenAmount, n.Amount)
		}
	}
	minted := map[string]math.Int{}
	add := func(d string, x math.Int) {
		if minted[d].IsNil() {
			minted[d] = math.ZeroInt()
		}
		minted[d] = minted[d].Add(x)
	}
	for k, r := range pre.deps {
		n, ok := post.deps[k]
		if !ok || r.Status != types.RequestStatusNotExecuted {
			if vjson(n) != vjson(r) {
				v.fail("C06", "deposit-again", "an executed request changed from %s to %s", vjson(r), vjson(n))
			}
			continue
		}
		v.st["deposit to "+n.Status.String()]++
		switch n.Status {
		case types.RequestStatusFailed:
			if !n.AcceptedCoins.Empty() {
				v.fail("C06", "deposit-failed", "%s", vjson(n))
			}
			put(r.Depositor, r.DepositCoins)
		case types.RequestStatusSucceeded:
			if !n.MintedPoolCoin.IsPositive() || !r.DepositCoins.IsAllGTE(n.AcceptedCoins) || n.MintedPoolCoin.Denom != pre.pools[k.a].PoolCoinDenom {
				v.fail("C06", "deposit-result", "%s", vjson(n))
			}
			put(r.Depositor, r.DepositCoins.Sub(n.AcceptedCoins...))
			put(r.Depositor, sdk.NewCoins(n.MintedPoolCoin))
			add(n.MintedPoolCoin.Denom, n.MintedPoolCoin.Amount)
		default:
			v.fail("C06", "deposit-waiting", "request %v is still %s", k, n.Status)
			v.fail("C20", "deposit-waiting", "request %v is still %s", k, n.Status)
		}
	}
	for k, r := range pre.wds {
		n, ok := post.wds[k]
		if !ok || r.Status != types.RequestStatusNotExecuted {
			if vjson(n) != vjson(r) {
				v.fail("C06", "withdraw-again", "an executed request changed from %s to %s", vjson(r), vjson(n))
			}
			continue
		}
		v.st["withdraw to "+n.Status.String()]++
		switch n.Status {
		case types.RequestStatusFailed:
			put(r.Withdrawer, sdk.NewCoins(r.PoolCoin))
			if !n.WithdrawnCoins.Empty() {
				v.fail("C06", "withdraw-failed", "%s", vjson(n))
			}
		case types.RequestStatusSucceeded:
			if n.WithdrawnCoins.Empty() {
				v.fail("C06", "withdraw-result", "%s", vjson(n))
			}
			put(r.Withdrawer, n.WithdrawnCoins)
			add(r.PoolCoin.Denom, r.PoolCoin.Amount.Neg())
		default:
			v.fail("C06", "withdraw-waiting", "request %v is still %s", k, n.Status)
			v.fail("C20", "withdraw-waiting", "request %v is still %s", k, n.Status)
		}
	}
	_ = ms
	// every user's balance changed by exactly what the records say
	for _, a := range v.acc {
		s := a.String()
		want := pre.bal[s].Add(recv[s]...)
		if !want.Equal(post.bal[s]) {
			v.fail("C03", "batch-settle", "balance of %s is %s, the order and request records give %s", s, post.bal[s], want)
			v.fail("C06", "batch-settle", "balance of %s is %s, the order and request records give %s", s, post.bal[s], want)
		}
	}
	for id, p := range pre.pools {
		x := math.ZeroInt()
		if !minted[p.PoolCoinDenom].IsNil() {
			x = minted[p.PoolCoinDenom]
		}
		if !post.sup[p.PoolCoinDenom].Equal(pre.sup[p.PoolCoinDenom].Add(x)) {
			v.fail("C06", "pool-supply", "supply of %s went from %s to %s, the requests record %s", p.PoolCoinDenom, pre.sup[p.PoolCoinDenom], post.sup[p.PoolCoinDenom], x)
		}
		if post.sup[p.PoolCoinDenom].IsZero() && pre.sup[p.PoolCoinDenom].IsPositive() && !post.pools[id].Disabled {
			v.fail("C06", "pool-empty", "pool %d has no pool coins but is not disabled", id)
		}
	}
	// nothing but pool coins is created or destroyed
	for _, d := range v.den {
		x, y := math.ZeroInt(), math.ZeroInt()
		for _, c := range pre.bal {
			x = x.Add(c.AmountOf(d))
		}
		for _, c := range post.bal {
			y = y.Add(c.AmountOf(d))
		}
		if !x.Equal(y) {
			v.fail("C03", "batch-conserve", "total of %s went from %s to %s", d, x, y)
		}
	}
	for id, q := range pre.pairs {
		if post.pairs[id].CurrentBatchId != q.CurrentBatchId+1 {
			v.fail("C10", "batch-id", "batch id of pair %d went from %d to %d", id, q.CurrentBatchId, post.pairs[id].CurrentBatchId)
		}
	}
}

func (v *vsim) doBeginBlock() {
	v.ctx = v.ctx.WithBlockHeader(cmtproto.Header{Height: v.ctx.BlockHeight() + 1, Time: v.ctx.BlockTime().Add(time.Duration(1+v.pick(5)) * time.Second)})
	pre := v.snap()
	if v.attempt(fmt.Sprintf("BeginBlock(%d)", v.ctx.BlockHeight()), func(ctx sdk.Context) error { dex.BeginBlocker(ctx, v.k); return nil }) != nil {
		return
	}
	post := v.snap()
	v.moved("C20", "clean-moves", pre, post)
	for k, o := range pre.orders {
		n, ok := post.orders[k]
		if ok != !vfin(o.Status) || ok && vjson(n) != vjson(o) {
			v.fail("C20", "clean-order", "order %v (%s): kept=%v", k, o.Status, ok)
		}
		if !ok {
			for _, x := range v.k.GetOrdersByOrderer(v.ctx, sdk.MustAccAddressFromBech32(o.Orderer)) {
				if x.Id == o.Id && x.PairId == o.PairId || x.Id == 0 {
					v.fail("C20", "clean-index", "order %v is still indexed", k)
				}
			}
		}
	}
	for k, o := range pre.deps {
		n, ok := post.deps[k]
		if ok != (o.Status == types.RequestStatusNotExecuted) || ok && vjson(n) != vjson(o) {
			v.fail("C20", "clean-deposit", "deposit request %v (%s): kept=%v", k, o.Status, ok)
		}
	}
	for k, o := range pre.wds {
		n, ok := post.wds[k]
		if ok != (o.Status == types.RequestStatusNotExecuted) || ok && vjson(n) != vjson(o) {
			v.fail("C20", "clean-withdraw", "withdraw request %v (%s): kept=%v", k, o.Status, ok)
		}
	}
}

// invariants checks what must hold in every state.
func (v *vsim) invariants() {
	s := v.snap()
	esc := map[string]sdk.Coins{}
	mm := map[string]uint32{}
	ge := sdk.Coins{}
	for k, o := range s.orders {
		if !vlive(o.Status) {
			continue
		}
		e := s.pairs[k.a].EscrowAddress
		esc[e] = esc[e].Add(o.RemainingOfferCoin)
		if o.Type == types.OrderTypeMM {
			mm[fmt.Sprintf("%s/%d", o.Orderer, o.PairId)]++
		}
	}
	for _, p := range s.pairs {
		if !s.bal[p.EscrowAddress].Equal(esc[p.EscrowAddress]) {
			v.fail("C03", "escrow", "escrow of pair %d holds %s, its live orders have %s left", p.Id, s.bal[p.EscrowAddress], esc[p.EscrowAddress])
		}
	}
	for _, r := range s.deps {
		if r.Status == types.RequestStatusNotExecuted {
			ge = ge.Add(r.DepositCoins...)
		}
	}
	for _, r := range s.wds {
		if r.Status == types.RequestStatusNotExecuted {
			ge = ge.Add(r.PoolCoin)
		}
	}
	if g := types.GlobalEscrowAddress.String(); !s.bal[g].Equal(ge) {
		v.fail("C06", "global-escrow", "the global escrow holds %s, the waiting requests offered %s", s.bal[g], ge)
	}
	if vjson(mm) != vjson(s.mm) {
		v.fail("C14", "mm-count", "recorded market-making order counts %s, live market-making orders %s", vjson(s.mm), vjson(mm))
	}
	if v.prop == "C22" {
		v.lookups(s)
	}
}

// lookups: every record is found by its key and by every index, and nothing else is.
func (v *vsim) lookups(s *vsnap) {
	bad := func(key, f string, a ...interface{}) { v.fail("C22", key, f, a...) }
	ids := func(xs []vkey) string {
		sort.Slice(xs, func(i, j int) bool { return xs[i].a < xs[j].a || xs[i].a == xs[j].a && xs[i].b < xs[j].b })
		return fmt.Sprint(xs)
	}
	for id, p := range s.pairs {
		if g, ok := v.k.GetPair(v.ctx, id); !ok || vjson(g) != vjson(p) {
			bad("pair-get", "pair %d: %v %s", id, ok, vjson(g))
		}
		if g, ok := v.k.GetPairByDenoms(v.ctx, p.BaseCoinDenom, p.QuoteCoinDenom); !ok || g.Id != id {
			bad("pair-denoms", "pair %d by its denoms: %v %d", id, ok, g.Id)
		}
		var want, got, wo, g2 []vkey
		for pid, q := range s.pools {
			if q.PairId == id {
				want = append(want, vkey{0, pid})
			}
		}
		for _, q := range v.k.GetPoolsByPair(v.ctx, id) {
			got = append(got, vkey{0, q.Id})
		}
		if ids(want) != ids(got) {
			bad("pools-by-pair", "pair %d: %v, expected %v", id, got, want)
		}
		for k := range s.orders {
			if k.a == id {
				wo = append(wo, k)
			}
		}
		for _, o := range v.k.GetOrdersByPair(v.ctx, id) {
			g2 = append(g2, vkey{o.PairId, o.Id})
		}
		if ids(wo) != ids(g2) {
			bad("orders-by-pair", "pair %d: %v, expected %v", id, g2, wo)
		}
	}
	for id, p := range s.pools {
		if g, ok := v.k.GetPool(v.ctx, id); !ok || vjson(g) != vjson(p) {
			bad("pool-get", "pool %d: %v %s", id, ok, vjson(g))
		}
		if g, ok := v.k.GetPoolByReserveAddress(v.ctx, p.GetReserveAddressAcc()); !ok || g.Id != id {
			bad("pool-reserve", "pool %d by reserve address: %v %d", id, ok, g.Id)
		}
	}
	for k, o := range s.orders {
		if g, ok := v.k.GetOrder(v.ctx, k.a, k.b); !ok || vjson(g) != vjson(o) {
			bad("order-get", "order %v: %v %s", k, ok, vjson(g))
		}
	}
	for k, o := range s.deps {
		if g, ok := v.k.GetDepositRequest(v.ctx, k.a, k.b); !ok || vjson(g) != vjson(o) {
			bad("deposit-get", "deposit %v: %v %s", k, ok, vjson(g))
		}
	}
	for k, o := range s.wds {
		if g, ok := v.k.GetWithdrawRequest(v.ctx, k.a, k.b); !ok || vjson(g) != vjson(o) {
			bad("withdraw-get", "withdraw %v: %v %s", k, ok, vjson(g))
		}
	}
	for _, a := range v.acc {
		var wo, wd, ww, go_, gd, gw []vkey
		for k, o := range s.orders {
			if o.Orderer == a.String() {
				wo = append(wo, k)
			}
		}
		for k, o := range s.deps {
			if o.Depositor == a.String() {
				wd = append(wd, k)
			}
		}
		for k, o := range s.wds {
			if o.Withdrawer == a.String() {
				ww = append(ww, k)
			}
		}
		for _, o := range v.k.GetOrdersByOrderer(v.ctx, a) {
			go_ = append(go_, vkey{o.PairId, o.Id})
		}
		for _, o := range v.k.GetDepositRequestsByDepositor(v.ctx, a) {
			gd = append(gd, vkey{o.PoolId, o.Id})
		}
		for _, o := range v.k.GetWithdrawRequestsByWithdrawer(v.ctx, a) {
			gw = append(gw, vkey{o.PoolId, o.Id})
		}
		if ids(wo) != ids(go_) {
			bad("orders-by-orderer", "%s: %v, expected %v", a, go_, wo)
		}
		if ids(wd) != ids(gd) {
			bad("deposits-by-depositor", "%s: %v, expected %v", a, gd, wd)
		}
		if ids(ww) != ids(gw) {
			bad("withdraws-by-withdrawer", "%s: %v, expected %v", a, gw, ww)
		}
		for id := range s.pairs {
			if n := v.k.GetNumMMOrders(v.ctx, a, id); n != s.mm[fmt.Sprintf("%s/%d", a, id)] {
				bad("mm-get", "%s pair %d: %d", a, id, n)
			}
		}
	}
}

// genesis: export, import into an empty chain, export again.
func (v *vsim) genesis() {
	gs := dex.ExportGenesis(v.ctx, v.k)
	s := v.snap()
	if len(gs.Pairs) != len(s.pairs) || len(gs.Pools) != len(s.pools) || len(gs.Orders) != len(s.orders) || len(gs.DepositRequests) != len(s.deps) || len(gs.WithdrawRequests) != len(s.wds) || len(gs.NumMarketMakingOrdersRecords) != len(s.mm) {
		v.fail("C12", "export", "export lists %d pairs, %d pools, %d orders, %d deposit requests, %d withdraw requests, %d counts of %d, %d, %d, %d, %d, %d",
			len(gs.Pairs), len(gs.Pools), len(gs.Orders), len(gs.DepositRequests), len(gs.WithdrawRequests), len(gs.NumMarketMakingOrdersRecords), len(s.pairs), len(s.pools), len(s.orders), len(s.deps), len(s.wds), len(s.mm))
	}
	if err := gs.Validate(); err != nil {
		v.fail("C12", "export-invalid", "an exported genesis is refused: %v", err)
		return
	}
	j1 := vjson(gs)
	old := *v
	defer func() { v.app, v.k, v.ctx = old.app, old.k, old.ctx }()
	v.app = app.InitTestApp(true)
	v.k = v.app.DexKeeper
	v.ctx = v.app.BaseApp.NewContext(true).WithBlockHeader(cmtproto.Header{Height: 1, Time: time.Unix(1700000000, 0).UTC()})
	func() {
		defer func() {
			if r := recover(); r != nil {
				v.fail("C12", "import", "import panics: %v", r)
			}
		}()
		dex.InitGenesis(v.ctx, v.k, *gs)
	}()
	if j2 := vjson(dex.ExportGenesis(v.ctx, v.k)); j1 != j2 {
		v.fail("C12", "roundtrip", "exported %s, after import %s", j1, j2)
	}
	p := v.prop
	if p == "C12" {
		v.prop = "C22"
		n := len(v.nfail)
		v.lookups(s)
		if len(v.nfail) > n {
			v.prop = "C12"
			v.fail("C12", "indices", "lookups differ after import")
		}
		v.prop = p
	}
	// a genesis that is not consistent is refused
	mut := func(key string, f func(g *types.GenesisState) bool) {
		var g types.GenesisState
		bz, err := v.app.AppCodec().MarshalJSON(gs)
		if err != nil {
			return
		}
		v.app.AppCodec().MustUnmarshalJSON(bz, &g)
		if !f(&g) {
			return
		}
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			ok = g.Validate() == nil
		}()
		v.evals++
		if ok {
			v.fail("C12", "accepts-"+key, "an inconsistent genesis (%s) passes validation: %s", key, vjson(g))
		}
	}
	i := v.pick(1000)
	mut("pair-id-above-counter", func(g *types.GenesisState) bool {
		if len(g.Pairs) == 0 {
			return false
		}
		g.LastPairId = g.Pairs[len(g.Pairs)-1].Id - 1
		return true
	})
	mut("pool-id-above-counter", func(g *types.GenesisState) bool {
		if len(g.Pools) == 0 {
			return false
		}
		g.LastPoolId = g.Pools[len(g.Pools)-1].Id - 1
		return true
	})
	mut("duplicate-pair", func(g *types.GenesisState) bool {
		if len(g.Pairs) == 0 {
			return false
		}
		g.Pairs = append(g.Pairs, g.Pairs[i%len(g.Pairs)])
		return true
	})
	mut("duplicate-pool", func(g *types.GenesisState) bool {
		if len(g.Pools) == 0 {
			return false
		}
		g.Pools = append(g.Pools, g.Pools[i%len(g.Pools)])
		return true
	})
	mut("duplicate-order", func(g *types.GenesisState) bool {
		if len(g.Orders) == 0 {
			return false
		}
		g.Orders = append(g.Orders, g.Orders[i%len(g.Orders)])
		return true
	})
	mut("duplicate-deposit", func(g *types.GenesisState) bool {
		if len(g.DepositRequests) == 0 {
			return false
		}
		g.DepositRequests = append(g.DepositRequests, g.DepositRequests[i%len(g.DepositRequests)])
		return true
	})
	mut("duplicate-withdraw", func(g *types.GenesisState) bool {
		if len(g.WithdrawRequests) == 0 {
			return false
		}
		g.WithdrawRequests = append(g.WithdrawRequests, g.WithdrawRequests[i%len(g.WithdrawRequests)])
		return true
	})
	mut("order-unknown-pair", func(g *types.GenesisState) bool {
		if len(g.Orders) == 0 {
			return false
		}
		g.Orders[i%len(g.Orders)].PairId = 99
		return true
	})
	mut("pool-unknown-pair", func(g *types.GenesisState) bool {
		if len(g.Pools) == 0 {
			return false
		}
		g.Pools[i%len(g.Pools)].PairId = 99
		return true
	})
	mut("deposit-unknown-pool", func(g *types.GenesisState) bool {
		if len(g.DepositRequests) == 0 {
			return false
		}
		g.DepositRequests[i%len(g.DepositRequests)].PoolId = 99
		return true
	})
	mut("withdraw-unknown-pool", func(g *types.GenesisState) bool {
		if len(g.WithdrawRequests) == 0 {
			return false
		}
		g.WithdrawRequests[i%len(g.WithdrawRequests)].PoolId = 99
		return true
	})
	mut("order-batch", func(g *types.GenesisState) bool {
		if len(g.Orders) == 0 {
			return false
		}
		g.Orders[i%len(g.Orders)].BatchId = 1_000_000
		return true
	})
	mut("order-denom", func(g *types.GenesisState) bool {
		if len(g.Orders) == 0 {
			return false
		}
		o := &g.Orders[i%len(g.Orders)]
		o.OfferCoin.Denom, o.RemainingOfferCoin.Denom = "zzz", "zzz"
		return true
	})
	mut("withdraw-denom", func(g *types.GenesisState) bool {
		if len(g.WithdrawRequests) == 0 {
			return false
		}
		g.WithdrawRequests[i%len(g.WithdrawRequests)].PoolCoin.Denom = "zzz"
		return true
	})
	mut("deposit-denom", func(g *types.GenesisState) bool {
		if len(g.DepositRequests) == 0 {
			return false
		}
		g.DepositRequests[i%len(g.DepositRequests)].DepositCoins = sdk.NewCoins(sdk.NewInt64Coin("zzz", 5))
		return true
	})
}

func (v *vsim) authority() {
	srv := keeper.NewMsgServerImpl(v.k)
	p := v.k.GetParams(v.ctx)
	n := p
	n.BatchSize = p.BatchSize + 1
	n.MaxNumActivePoolsPerPair = p.MaxNumActivePoolsPerPair + 1
	n.WithdrawFeeRate = math.LegacyNewDecWithPrec(int64(v.pick(100)), 3)
	auth := v.k.GetAuthority()
	for _, who := range []string{v.addr().String(), "", auth + " ", strings.ToUpper(auth), auth[:len(auth)-1], sdk.AccAddress(types.ModuleName).String()} {
		if who == auth {
			continue
		}
		err := v.attempt(fmt.Sprintf("UpdateParams(%q)", who), func(ctx sdk.Context) error {
			_, e := srv.UpdateParams(ctx, &types.MsgUpdateParams{Authority: who, Params: n})
			return e
		})
		if err == nil || vjson(v.k.GetParams(v.ctx)) != vjson(p) {
			v.fail("C13", "update-refuse", "UpdateParams by %q (authority %q) was not refused", who, auth)
			v.k.SetParams(v.ctx, p)
		}
	}
	err := v.attempt("UpdateParams(authority)", func(ctx sdk.Context) error {
		_, e := srv.UpdateParams(ctx, &types.MsgUpdateParams{Authority: auth, Params: n})
		return e
	})
	if err != nil || vjson(v.k.GetParams(v.ctx)) != vjson(n) {
		v.fail("C13", "update-effect", "UpdateParams by the authority: %v, parameters %s, sent %s", err, vjson(v.k.GetParams(v.ctx)), vjson(n))
	}
	v.k.SetParams(v.ctx, p)
	bad := []func(q *types.Params){
		func(q *types.Params) { q.WithdrawFeeRate = math.LegacyNewDec(2) },
		func(q *types.Params) { q.MaxPriceLimitRatio = math.LegacyOneDec() },
		func(q *types.Params) { q.BatchSize = 0 },
		func(q *types.Params) { q.FeeCollectorAddress = "x" },
		func(q *types.Params) { q.MinInitialPoolCoinSupply = math.ZeroInt() },
		func(q *types.Params) { q.MinInitialDepositAmount = math.NewInt(-1) },
	}
	q := p
	bad[v.pick(len(bad))](&q)
	if q.Validate() == nil {
		v.fail("C13", "params-valid", "parameters %s pass validation", vjson(q))
	}
}

func (v *vsim) history(steps int) {
	v.doCreatePair()
	v.doCreatePair()
	for i := 0; i < steps && time.Now().Before(v.until); i++ {
		switch n := v.pick(40); {
		case n < 1:
			v.doCreatePair()
		case n < 3:
			v.doCreatePool()
		case n < 5:
			v.doCreateRanged()
		case n < 8:
			v.doDeposit()
		case n < 11:
			v.doWithdraw()
		case n < 25:
			v.doOrder()
		case n < 26:
			v.doDonate()
			if v.pick(3) == 0 {
				v.doDrain()
			}
		case n < 29:
			v.doCancel()
		case n < 30:
			v.doCancelAll()
		default:
			v.doEndBlock()
			v.invariants()
			v.doBeginBlock()
		}
		v.invariants()
	}
	if v.prop == "C12" {
		v.genesis()
	}
	if v.prop == "C13" {
		v.authority()
	}
}

func vrun(t *testing.T, prop string, steps, runs, secs int) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	fmt.Printf("RULE seeded random histories of up to %d messages and blocks on the real application (2 to 6 pairs over 3 denoms, 4 accounts), every step checked against independent book-keeping\n", steps)
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs, secs = runs*10, 700
	}
	v := &vsim{t: t, prop: prop, nfail: map[string]int{}, seen: map[string]bool{}, st: map[string]int{}, until: time.Now().Add(time.Duration(secs) * time.Second)}
	for i := 0; i < runs && time.Now().Before(v.until); i++ {
		v.setup(seed*1000003 + int64(i))
		v.history(steps)
	}
	if os.Getenv("VERIF_STATS") != "" {
		var ks []string
		for k := range v.st {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("STAT", k, v.st[k])
		}
	}
	fmt.Printf("EVALS %d %d\n", v.evals, len(v.seen))
}

func TestVerif_C03(t *testing.T) { vrun(t, "C03", 120, 80, 100) }
func TestVerif_C06(t *testing.T) { vrun(t, "C06", 120, 80, 100) }
func TestVerif_C09(t *testing.T) { vrun(t, "C09", 120, 80, 100) }
func TestVerif_C10(t *testing.T) { vrun(t, "C10", 120, 80, 100) }
func TestVerif_C12(t *testing.T) { vrun(t, "C12", 50, 60, 100) }
func TestVerif_C13(t *testing.T) { vrun(t, "C13", 4, 10, 60) }
func TestVerif_C14(t *testing.T) { vrun(t, "C14", 120, 80, 100) }
func TestVerif_C15(t *testing.T) { vrun(t, "C15", 120, 80, 100) }
func TestVerif_C20(t *testing.T) { vrun(t, "C20", 120, 80, 100) }
func TestVerif_C22(t *testing.T) { vrun(t, "C22", 80, 50, 100) }
