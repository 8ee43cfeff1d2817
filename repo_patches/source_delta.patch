From b3f0a5e1ffa701b64ad5381e07b1bc58208d3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 1/8] fix: amm.Deposit must not accept less than the minted
 share of the reserves

---
 x/dex/amm/pool.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index de2e851..a069499 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -498,9 +498,9 @@ func Deposit(rx, ry, ps, x, y sdk.Int) (ax, ay, pc sdk.Int) {
 		}
 		pc = ps.MulTruncate(ratio).TruncateInt()
 
-		mintProportion := pc.ToLegacyDec().Quo(ps)       // pc / ps
-		ax = rx.Mul(mintProportion).Ceil().TruncateInt() // ceil(rx * mintProportion)
-		ay = ry.Mul(mintProportion).Ceil().TruncateInt() // ceil(ry * mintProportion)
+		// Rounding pc / ps before multiplying could accept less than the minted share.
+		ax = mulQuoCeil(rx.TruncateInt(), pc, ps.TruncateInt()) // ceil(rx * pc / ps)
+		ay = mulQuoCeil(ry.TruncateInt(), pc, ps.TruncateInt()) // ceil(ry * pc / ps)
 	}, func() {
 		ax, ay, pc = sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt()
 	})
@@ -508,6 +508,15 @@ func Deposit(rx, ry, ps, x, y sdk.Int) (ax, ay, pc sdk.Int) {
 	return
 }
 
+// mulQuoCeil returns ceil(a * b / c), without intermediate rounding or overflow,
+// for non-negative a, b and positive c.
+func mulQuoCeil(a, b, c sdk.Int) sdk.Int {
+	n := new(big.Int).Mul(a.BigInt(), b.BigInt())
+	n.Add(n, c.BigInt())
+	n.Sub(n, big.NewInt(1))
+	return sdk.NewIntFromBigInt(n.Quo(n, c.BigInt()))
+}
+
 // Withdraw returns withdrawn x and y coin amount when someone withdraws
 // pc pool coin.
 // Withdraw also takes care of the fee rate.
-- 
2.43.0


From 9636e7ed78bda8e8057ac51faf85b9f1530153df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 2/8] fix: amm matching must hand buyers exactly the base coin
 sellers gave

---
 x/dex/amm/match.go | 23 +++++++++++++----------
 x/dex/amm/util.go  | 11 +++++++++++
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..38a8265 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -181,8 +181,7 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 		return sdk.Int{}, false
 	}
 	quoteCoinDiff = sdk.ZeroInt()
-	distributeToTicks := func(ticks []*orderBookTick) {
-		remainingAmt := matchableAmt
+	distributeToTicks := func(ticks []*orderBookTick, remainingAmt sdk.Int) {
 		for _, tick := range ticks {
 			tickAmt := TotalMatchableAmount(tick.orders, matchPrice)
 			if tickAmt.LTE(remainingAmt) {
@@ -197,8 +196,12 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 			}
 		}
 	}
-	distributeToTicks(ob.buys.ticks)
-	distributeToTicks(ob.sells.ticks)
+	// A sell order never takes an amount that is worth less than one quote coin,
+	// so the sell orders may take less than matchableAmt.
+	// The buy orders get exactly what has been sold.
+	openAmt := totalOpenAmount(ob.sells.ticks...)
+	distributeToTicks(ob.sells.ticks, matchableAmt)
+	distributeToTicks(ob.buys.ticks, openAmt.Sub(totalOpenAmount(ob.sells.ticks...)))
 	matched = true
 	return
 }
@@ -280,17 +283,17 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 			si++
 			continue
 		}
+		// The buy orders get exactly what the sell orders have sold.
+		openAmt := totalOpenAmount(sellTick)
+		quoteCoinDiff = quoteCoinDiff.Add(
+			DistributeOrderAmountToTick(sellTick, sdk.MinInt(buyTickOpenAmt, sellTickOpenAmt), p))
+		quoteCoinDiff = quoteCoinDiff.Add(
+			DistributeOrderAmountToTick(buyTick, openAmt.Sub(totalOpenAmount(sellTick)), p))
 		if buyTickOpenAmt.LTE(sellTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, buyTickOpenAmt, p))
 			bi++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, sellTickOpenAmt, p))
 		}
 		if sellTickOpenAmt.LTE(buyTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, sellTickOpenAmt, p))
 			si++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, buyTickOpenAmt, p))
 		}
 		matchPrice = p
 		matched = true
diff --git a/x/dex/amm/util.go b/x/dex/amm/util.go
index 6f914b3..71648a2 100644
--- a/x/dex/amm/util.go
+++ b/x/dex/amm/util.go
@@ -65,6 +65,17 @@ func TotalMatchableAmount(orders []Order, price sdk.LegacyDec) (amt sdk.Int) {
 	return
 }
 
+// totalOpenAmount returns total open amount of orders at the ticks.
+func totalOpenAmount(ticks ...*orderBookTick) sdk.Int {
+	amt := sdk.ZeroInt()
+	for _, tick := range ticks {
+		for _, order := range tick.orders {
+			amt = amt.Add(order.GetOpenAmount())
+		}
+	}
+	return amt
+}
+
 // OrderGroup represents a group of orders with same batch id.
 type OrderGroup struct {
 	BatchId uint64
-- 
2.43.0


From f29929bdfcf7aba42715eeaa03180cf9cc43f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 3/8] fix: parse index keys whose parts are longer than a byte
 can add up to

The lengths were kept as uint8, so their sums wrapped: the pairs-by-denoms key
of two denoms of 128 characters, or a request or order key of an address of 246
bytes or more, did not parse back to what it was built from.
---
 x/dex/types/keys.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..302d93a 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,9 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
@@ -184,7 +184,7 @@ func ParseDepositRequestIndexKey(key []byte) (depositor sdk.AccAddress, poolId,
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	depositor = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -197,7 +197,7 @@ func ParseWithdrawRequestIndexKey(key []byte) (withdrawer sdk.AccAddress, poolId
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	withdrawer = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -210,7 +210,7 @@ func ParseOrderIndexKey(key []byte) (orderer sdk.AccAddress, pairId, orderId uin
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	orderer = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	orderId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -223,7 +223,7 @@ func ParseNumMMOrdersKey(key []byte) (ordererAddr sdk.AccAddress, pairId uint64)
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	ordererAddr = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen:])
 	return
-- 
2.43.0


From 9ffa416bd4a8135eaa3a9822733e9d5c752a5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 4/8] fix: keep the authority and the logger the keeper is
 created with

The authority was dropped, so parameter updates by the governance authority
were refused and updates with an empty authority accepted.
---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From 3948bb560c7ea814170aadfe62d15f2a3c11daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 5/8] fix: import and export the whole state of the module, not
 only its parameters

---
 x/dex/module/genesis.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..0c7b878 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,13 +10,12 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
+	genesis := k.ExportGenesis(ctx)
 
 	// this line is used by starport scaffolding # genesis/module/export
 
-- 
2.43.0


From 2b6d377563c7f847f25336582095723235b49a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 6/8] fix: accept single-sided deposit requests in a genesis

A deposit to a ranged pool may offer one of the pair's two coins only; the
genesis exported with such a request did not validate.
---
 x/dex/types/genesis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..4512e78 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,9 +67,10 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
-			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+		for _, coin := range req.DepositCoins {
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
 		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
 			if _, ok := set[req.Id]; ok {
-- 
2.43.0


From 1fc96e569567bea392413ccd510a779205f9a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 7/8] fix: refuse a withdraw fee rate above one

Such a rate made the amounts paid for a withdrawal negative, and building the
coins panics at the end of the block.
---
 x/dex/types/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..93550d1 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -335,6 +335,10 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must not be greater than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0319a79234bafd62010a884be2fd383138e6c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 8/8] fix: refuse a max price limit ratio of one or more

The lowest price within limits is then zero or negative, and rounding it to a
tick panics at the end of the block.
---
 x/dex/types/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 93550d1..e89cecf 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -270,6 +270,10 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0

