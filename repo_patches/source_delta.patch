From 4fd901165eb5378b18371a6b8418bb0e7c32165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 01/14] fix: keep the authority and logger given to the dex
 keeper

NewKeeper validated the authority address but never stored it, so
UpdateParams from the governance account was always rejected (and one
carrying an empty authority would have been accepted).
---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From 7afed76fe27b102882b055d448afe61788757d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 02/14] fix: import and export the whole dex state at genesis

The module's InitGenesis and ExportGenesis handled only the parameters, so
an export/import dropped every pair, pool, request, order and market maker
counter; use the keeper's functions, which handle all of it.
---
 x/dex/module/genesis.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..b304af8 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,15 +10,11 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
-
 	// this line is used by starport scaffolding # genesis/module/export
-
-	return genesis
+	return k.ExportGenesis(ctx)
 }
-- 
2.43.0


From 329cfa73a02e90aec35e9284cea633f0b03f0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 03/14] fix: reject parameters that would halt the exchange

A price limit ratio of 1 or more makes the lowest allowed price zero, which
panics in the end blocker; a withdraw fee rate above 1 gives negative
withdrawals; a tick precision above 15 overflows tick indices.
---
 x/dex/types/params.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..d5a00ea 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -39,6 +39,10 @@ var (
 
 // General constants
 const (
+	// MaxTickPrecision is the highest tick precision with which tick indices
+	// still fit in an int64.
+	MaxTickPrecision uint32 = 15
+
 	PoolReserveAddressPrefix  = "PoolReserveAddress"
 	PairEscrowAddressPrefix   = "PairEscrowAddress"
 	ModuleAddressNameSplitter = "|"
@@ -170,11 +174,15 @@ func validateBatchSize(i interface{}) error {
 }
 
 func validateTickPrecision(i interface{}) error {
-	_, ok := i.(uint32)
+	v, ok := i.(uint32)
 	if !ok {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v > MaxTickPrecision {
+		return fmt.Errorf("tick precision must not be greater than %d: %d", MaxTickPrecision, v)
+	}
+
 	return nil
 }
 
@@ -270,6 +278,11 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	// With a ratio of 1 or more the lowest allowed price would not be positive.
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -335,6 +348,10 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must not be greater than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 8bdbc0ea599790a92faacba59f94a749257619b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 04/14] fix: accept single-sided deposit requests at genesis

A ranged pool accepts deposits of one coin, but validating an exported
genesis state with such a request failed.
---
 x/dex/types/genesis.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..932e14d 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,8 +67,13 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
+		for _, coin := range req.DepositCoins {
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
+		}
+		// Only a ranged pool can take a single-sided deposit.
+		if pool.Type != PoolTypeRanged && len(req.DepositCoins) != 2 {
 			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
 		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
-- 
2.43.0


From 7c92fbeacb0f0e11d03de2ca8863b6fa8e895c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 05/14] fix: give buy orders exactly what sell orders gave

A sell order is not matched for less than one quote coin, so the sell side
could match less than the amount distributed to it while the buy side got
all of it, at the expense of other orders' coins in the escrow.  Match the
sell side first, and the buy side for the amount it really gave.
---
 x/dex/amm/match.go | 63 ++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..4cc340d 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -181,24 +181,35 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 		return sdk.Int{}, false
 	}
 	quoteCoinDiff = sdk.ZeroInt()
-	distributeToTicks := func(ticks []*orderBookTick) {
-		remainingAmt := matchableAmt
+	distributeToTicks := func(ticks []*orderBookTick, amt sdk.Int) (matchedAmt sdk.Int) {
+		matchedAmt = sdk.ZeroInt()
+		remainingAmt := amt
 		for _, tick := range ticks {
+			if remainingAmt.IsZero() {
+				break
+			}
 			tickAmt := TotalMatchableAmount(tick.orders, matchPrice)
 			if tickAmt.LTE(remainingAmt) {
 				quoteCoinDiff = quoteCoinDiff.Add(FulfillOrders(tick.orders, matchPrice))
+				matchedAmt = matchedAmt.Add(tickAmt)
 				remainingAmt = remainingAmt.Sub(tickAmt)
-				if remainingAmt.IsZero() {
-					break
-				}
 			} else {
-				quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(tick, remainingAmt, matchPrice))
+				diff, tickMatchedAmt := DistributeOrderAmountToTick(tick, remainingAmt, matchPrice)
+				quoteCoinDiff = quoteCoinDiff.Add(diff)
+				matchedAmt = matchedAmt.Add(tickMatchedAmt)
 				break
 			}
 		}
+		return
+	}
+	// Sell orders may take less than the matchable amount, since a sell order
+	// isn't matched for less than one quote coin.
+	// Buy orders take exactly what sell orders gave.
+	matchedAmt := distributeToTicks(ob.sells.ticks, matchableAmt)
+	if matchedAmt.IsZero() {
+		return sdk.Int{}, false
 	}
-	distributeToTicks(ob.buys.ticks)
-	distributeToTicks(ob.sells.ticks)
+	distributeToTicks(ob.buys.ticks, matchedAmt)
 	matched = true
 	return
 }
@@ -280,20 +291,22 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 			si++
 			continue
 		}
+		// Sell orders may take less than the given amount, since a sell order
+		// isn't matched for less than one quote coin.
+		// Buy orders take exactly what sell orders gave.
+		sellDiff, matchedAmt := DistributeOrderAmountToTick(sellTick, sdk.MinInt(buyTickOpenAmt, sellTickOpenAmt), p)
+		if matchedAmt.IsPositive() {
+			buyDiff, _ := DistributeOrderAmountToTick(buyTick, matchedAmt, p)
+			quoteCoinDiff = quoteCoinDiff.Add(buyDiff).Add(sellDiff)
+			matchPrice = p
+			matched = true
+		}
 		if buyTickOpenAmt.LTE(sellTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, buyTickOpenAmt, p))
 			bi++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, sellTickOpenAmt, p))
 		}
 		if sellTickOpenAmt.LTE(buyTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, sellTickOpenAmt, p))
 			si++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, buyTickOpenAmt, p))
 		}
-		matchPrice = p
-		matched = true
 	}
 	return
 }
@@ -302,9 +315,11 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 // at the tick.
 // Orders with higher priority(have lower batch id) get matched first,
 // then the remaining amount is distributed to the remaining orders.
-func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff sdk.Int) {
+// It returns the amount actually matched, which can be less than amt.
+func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff, matchedAmt sdk.Int) {
 	remainingAmt := amt
 	quoteCoinDiff = sdk.ZeroInt()
+	matchedAmt = sdk.ZeroInt()
 	groups := GroupOrdersByBatchId(tick.orders)
 	for _, group := range groups {
 		openAmt := TotalMatchableAmount(group.Orders, price)
@@ -313,10 +328,13 @@ func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.Leg
 		}
 		if remainingAmt.GTE(openAmt) {
 			quoteCoinDiff = quoteCoinDiff.Add(FulfillOrders(group.Orders, price))
+			matchedAmt = matchedAmt.Add(openAmt)
 			remainingAmt = remainingAmt.Sub(openAmt)
 		} else {
 			SortOrders(group.Orders)
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToOrders(group.Orders, remainingAmt, price))
+			diff, groupMatchedAmt := DistributeOrderAmountToOrders(group.Orders, remainingAmt, price)
+			quoteCoinDiff = quoteCoinDiff.Add(diff)
+			matchedAmt = matchedAmt.Add(groupMatchedAmt)
 			remainingAmt = sdk.ZeroInt()
 		}
 		if remainingAmt.IsZero() {
@@ -334,7 +352,8 @@ func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.Leg
 // to the orders again, by priority.
 // This time, the proportion is not considered and each order takes up
 // the amount as much as possible.
-func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff sdk.Int) {
+// It returns the amount actually matched, which can be less than amt.
+func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff, matchedAmt sdk.Int) {
 	totalAmt := TotalAmount(orders)
 	totalMatchedAmt := sdk.ZeroInt()
 	matchedAmtByOrder := map[Order]sdk.Int{}
@@ -390,8 +409,10 @@ func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.Legacy
 	}
 
 	quoteCoinDiff = sdk.ZeroInt()
-	for order, matchedAmt := range matchedAmtByOrder {
-		quoteCoinDiff = quoteCoinDiff.Add(FillOrder(order, matchedAmt, price))
+	matchedAmt = sdk.ZeroInt()
+	for order, orderMatchedAmt := range matchedAmtByOrder {
+		quoteCoinDiff = quoteCoinDiff.Add(FillOrder(order, orderMatchedAmt, price))
+		matchedAmt = matchedAmt.Add(orderMatchedAmt)
 	}
 	return
 }
-- 
2.43.0


From 49ece8c7c8cadf9ea7ae073eeb53db823f450473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 06/14] fix: list pools while a depleted pool is not disabled
 yet

---
 x/dex/types/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index 970011c..fa30449 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -65,8 +65,12 @@ func (op *BulkSendCoinsOperation) Run(ctx sdk.Context, bankKeeper BankKeeper) er
 func NewPoolResponse(pool Pool, rx, ry sdk.Coin, poolCoinSupply math.Int) PoolResponse {
 	var price *math.LegacyDec
 	if !pool.Disabled {
-		p := pool.AMMPool(rx.Amount, ry.Amount, math.Int{}).Price()
-		price = &p
+		// A depleted pool has no price until it is disabled.
+		ammPool := pool.AMMPool(rx.Amount, ry.Amount, poolCoinSupply)
+		if !ammPool.IsDepleted() {
+			p := ammPool.Price()
+			price = &p
+		}
 	}
 	return PoolResponse{
 		Type:           pool.Type,
-- 
2.43.0


From 364b157aeaa51af6a451e407265187f322454a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 07/14] fix: parse pair index keys of long denominations

---
 x/dex/types/keys.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..2e28e60 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,9 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
-- 
2.43.0


From 75320cfe7e694eedc2e2ca7e17a7a8a1bc24ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 08/14] fix: show no orders in a book whose orders all match

---
 x/dex/amm/view.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/dex/amm/view.go b/x/dex/amm/view.go
index 3d40472..a1662b8 100644
--- a/x/dex/amm/view.go
+++ b/x/dex/amm/view.go
@@ -67,9 +67,6 @@ func (view *OrderBookView) Match() {
 		return view.SellAmountUnder(view.sellAmtAccSums[i].price, true).GT(
 			view.BuyAmountOver(view.sellAmtAccSums[i].price, true))
 	})
-	if buyIdx == len(view.buyAmtAccSums) && sellIdx == len(view.sellAmtAccSums) {
-		return
-	}
 	matchAmt := sdk.ZeroInt()
 	if buyIdx > 0 {
 		matchAmt = view.buyAmtAccSums[buyIdx-1].sum
-- 
2.43.0


From 927391709d345bdec57d5df26e12ce6cf7b104b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 09/14] fix: keep the lowest price limit positive

With the last price near the smallest price and a price limit ratio of a
half or more, the lower limit was rounded to zero, and computing its tick
panicked in the end blocker.
---
 x/dex/keeper/swap.go | 5 +----
 x/dex/types/util.go  | 6 +++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/x/dex/keeper/swap.go b/x/dex/keeper/swap.go
index a6db4f7..8d7fc69 100644
--- a/x/dex/keeper/swap.go
+++ b/x/dex/keeper/swap.go
@@ -99,10 +99,7 @@ func (k Keeper) placeOrder(
 		}
 		switch typ {
 		case types.OrderTypeMarket:
-			resultPrice = amm.PriceToUpTick(
-				pair.LastPrice.Mul(
-					math.LegacyOneDec().Sub(k.GetMaxPriceLimitRatio(ctx))),
-				int(tickPrec))
+			resultPrice, _ = k.PriceLimits(ctx, *pair.LastPrice)
 		default:
 			resultPrice = amm.PriceToUpTick(*price, int(tickPrec))
 		}
diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index fa30449..aeca50b 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -102,7 +102,11 @@ func IsTooSmallOrderAmount(amt math.Int, price math.LegacyDec) bool {
 // PriceLimits returns the lowest and the highest price limits with given last price
 // and price limit ratio.
 func PriceLimits(lastPrice, priceLimitRatio math.LegacyDec, tickPrec int) (lowestPrice, highestPrice math.LegacyDec) {
-	lowestPrice = amm.PriceToUpTick(lastPrice.Mul(math.LegacyOneDec().Sub(priceLimitRatio)), tickPrec)
+	lowestPrice = lastPrice.Mul(math.LegacyOneDec().Sub(priceLimitRatio))
+	if lowestPrice.IsZero() { // a price is always positive
+		lowestPrice = math.LegacySmallestDec()
+	}
+	lowestPrice = amm.PriceToUpTick(lowestPrice, tickPrec)
 	highestPrice = amm.PriceToDownTick(lastPrice.Mul(math.LegacyOneDec().Add(priceLimitRatio)), tickPrec)
 	return
 }
-- 
2.43.0


From 33b928aec5d6b1c1723bda4f72be40bd497fe31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 10/14] fix: find the ticks of pool orders by bisection

Pools went through the ticks one by one until an order was large enough,
which takes practically forever with a high tick precision, in the end
blocker of every batch.
---
 x/dex/amm/pool.go | 62 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index de2e851..1c4f0d5 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -613,14 +613,18 @@ func PoolBuyOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Leg
 			placeOrder(highestPrice, amt, true)
 		}
 	}
+	lowestTick := PriceToUpTick(lowestPrice, tickPrec)
 	tick := PriceToDownTick(sdk.LegacyMinDec(highestPrice, tmpPool.Price()), tickPrec)
-	for tick.GTE(lowestPrice) {
-		amt := tmpPool.BuyAmountOver(tick, true)
-		if amt.LT(MinCoinAmount) {
-			tick = DownTick(tick, tickPrec) // TODO: check if the tick is the lowest possible tick
-			continue
+	for tick.GTE(lowestTick) {
+		var found bool
+		// The lower the price is, the more the pool buys.
+		tick, found = searchTick(tick, lowestTick, tickPrec, func(tick sdk.LegacyDec) bool {
+			return tmpPool.BuyAmountOver(tick, true).GTE(MinCoinAmount)
+		})
+		if !found {
+			break
 		}
-		placeOrder(tick, amt, false)
+		placeOrder(tick, tmpPool.BuyAmountOver(tick, true), false)
 		rx, _ := tmpPool.Balances()
 		if !rx.IsPositive() {
 			break
@@ -654,14 +658,20 @@ func PoolSellOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Le
 			placeOrder(lowestPrice, amt, true)
 		}
 	}
+	highestTick := PriceToDownTick(highestPrice, tickPrec)
 	tick := PriceToUpTick(sdk.LegacyMaxDec(lowestPrice, tmpPool.Price()), tickPrec)
-	for tick.LTE(highestPrice) {
-		amt := tmpPool.SellAmountUnder(tick, true)
-		if amt.LT(MinCoinAmount) || tick.MulInt(amt).TruncateInt().IsZero() {
-			tick = UpTick(tick, tickPrec)
-			continue
+	for tick.LTE(highestTick) {
+		var found bool
+		// The higher the price is, the more the pool sells.
+		tick, found = searchTick(tick, highestTick, tickPrec, func(tick sdk.LegacyDec) bool {
+			amt := tmpPool.SellAmountUnder(tick, true)
+			return amt.GTE(MinCoinAmount) &&
+				(tick.GTE(oneDec) || tick.MulInt(amt).TruncateInt().IsPositive())
+		})
+		if !found {
+			break
 		}
-		placeOrder(tick, amt, false)
+		placeOrder(tick, tmpPool.SellAmountUnder(tick, true), false)
 		_, ry := tmpPool.Balances()
 		if !ry.GT(MinCoinAmount) {
 			break
@@ -671,6 +681,34 @@ func PoolSellOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Le
 	return orders
 }
 
+// searchTick returns the tick nearest to from, among the ticks between from
+// and to, for which ok holds.
+// ok must hold for every tick beyond, in the direction of to, a tick it holds
+// for, so that there's no need to go through the ticks one by one.
+func searchTick(from, to sdk.LegacyDec, tickPrec int, ok func(tick sdk.LegacyDec) bool) (tick sdk.LegacyDec, found bool) {
+	if ok(from) {
+		return from, true
+	}
+	if from.Equal(to) || !ok(to) {
+		return to, false
+	}
+	for {
+		lo, hi := sdk.LegacyMinDec(from, to), sdk.LegacyMaxDec(from, to)
+		mid := PriceToDownTick(lo.Add(hi).QuoInt64(2), tickPrec)
+		if mid.LTE(lo) {
+			mid = UpTick(lo, tickPrec)
+		}
+		if mid.GTE(hi) { // no ticks between from and to
+			return to, true
+		}
+		if ok(mid) {
+			to = mid
+		} else {
+			from = mid
+		}
+	}
+}
+
 // InitialPoolCoinSupply returns ideal initial pool coin minting amount.
 func InitialPoolCoinSupply(x, y sdk.Int) sdk.Int {
 	cx := len(x.BigInt().Text(10)) - 1 // characteristic of x
-- 
2.43.0


From 7ea7648c807307557593038f6f664a3182136c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 11/14] fix: skip empty prices when showing an order book

The book was walked price by price, so that showing a book with distant
orders took practically forever with a high tick precision, and orders
off the ticks were overlooked when choosing the price unit.
---
 x/dex/amm/view.go        | 26 ++++++++++++++++++++++++++
 x/dex/types/orderbook.go | 29 +++++++++++++----------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/x/dex/amm/view.go b/x/dex/amm/view.go
index a1662b8..c64f2a4 100644
--- a/x/dex/amm/view.go
+++ b/x/dex/amm/view.go
@@ -172,6 +172,32 @@ func (view *OrderBookView) SellAmountOver(price sdk.LegacyDec, inclusive bool) s
 	return view.sellAmtAccSums[len(view.sellAmtAccSums)-1].sum.Sub(view.sellAmtAccSums[i-1].sum)
 }
 
+// HighestBuyPriceUnder returns the highest price with buy orders among the
+// prices lower than given price.
+func (view *OrderBookView) HighestBuyPriceUnder(price sdk.LegacyDec) (sdk.LegacyDec, bool) {
+	amt := view.BuyAmountOver(price, true)
+	i := sort.Search(len(view.buyAmtAccSums), func(i int) bool {
+		return view.buyAmtAccSums[i].price.LT(price) && view.buyAmtAccSums[i].sum.GT(amt)
+	})
+	if i >= len(view.buyAmtAccSums) {
+		return sdk.LegacyDec{}, false
+	}
+	return view.buyAmtAccSums[i].price, true
+}
+
+// LowestSellPriceOver returns the lowest price with sell orders among the
+// prices higher than given price.
+func (view *OrderBookView) LowestSellPriceOver(price sdk.LegacyDec) (sdk.LegacyDec, bool) {
+	amt := view.SellAmountUnder(price, true)
+	i := sort.Search(len(view.sellAmtAccSums), func(i int) bool {
+		return view.sellAmtAccSums[i].price.GT(price) && view.sellAmtAccSums[i].sum.GT(amt)
+	})
+	if i >= len(view.sellAmtAccSums) {
+		return sdk.LegacyDec{}, false
+	}
+	return view.sellAmtAccSums[i].price, true
+}
+
 type amtAccSum struct {
 	price sdk.LegacyDec
 	sum   sdk.Int
diff --git a/x/dex/types/orderbook.go b/x/dex/types/orderbook.go
index 1ff13d5..d6a12a6 100644
--- a/x/dex/types/orderbook.go
+++ b/x/dex/types/orderbook.go
@@ -53,20 +53,15 @@ func MakeOrderBookPairResponse(pairId uint64, ov *amm.OrderBookView, lowestPrice
 	var smallestPriceUnit math.LegacyDec
 	if foundLowestSellPrice {
 		currentPrice := lowestSellPrice
-		for i := 0; i < lowestPriceUnitMaxNumTicks && currentPrice.LTE(highestPrice); {
-			amtInclusive := ov.SellAmountOver(currentPrice, true)
-			amtExclusive := ov.SellAmountOver(currentPrice, false)
-			amt := amtInclusive.Sub(amtExclusive)
-			if amt.IsPositive() {
-				i++
-				if i == lowestPriceUnitMaxNumTicks {
-					break
-				}
-			}
-			if !amtExclusive.IsPositive() {
+		for i := 1; i < lowestPriceUnitMaxNumTicks && currentPrice.LTE(highestPrice); i++ {
+			nextPrice, found := ov.LowestSellPriceOver(currentPrice)
+			if !found {
 				break
 			}
-			currentPrice = ammTickPrec.UpTick(currentPrice)
+			if nextPrice.GT(highestPrice) {
+				nextPrice = ammTickPrec.UpTick(highestPrice)
+			}
+			currentPrice = nextPrice
 		}
 		smallestPriceUnit = ammTickPrec.TickGap(currentPrice)
 	} else {
@@ -98,10 +93,11 @@ func MakeOrderBookPairResponse(pairId uint64, ov *amm.OrderBookView, lowestPrice
 					accAmt = accAmt.Add(amt)
 					j++
 				}
-				if !ov.SellAmountOver(currentPrice, false).IsPositive() {
+				nextPrice, found := ov.LowestSellPriceOver(currentPrice)
+				if !found {
 					break
 				}
-				currentPrice = currentPrice.Add(priceUnit)
+				currentPrice = FitPriceToTickGap(nextPrice, priceUnit, false)
 			}
 			// Reverse sell ticks.
 			for l, r := 0, len(ob.Sells)-1; l < r; l, r = l+1, r-1 {
@@ -123,10 +119,11 @@ func MakeOrderBookPairResponse(pairId uint64, ov *amm.OrderBookView, lowestPrice
 					accAmt = accAmt.Add(amt)
 					j++
 				}
-				if !ov.BuyAmountUnder(currentPrice, false).IsPositive() {
+				nextPrice, found := ov.HighestBuyPriceUnder(currentPrice)
+				if !found {
 					break
 				}
-				currentPrice = currentPrice.Sub(priceUnit)
+				currentPrice = FitPriceToTickGap(nextPrice, priceUnit, true)
 			}
 		}
 		resp.OrderBooks = append(resp.OrderBooks, ob)
-- 
2.43.0


From 8d5ac2b6177992876743ac970a8c569b794aa489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 12/14] fix: place the orders of a pool at different prices

---
 x/dex/amm/pool.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index 1c4f0d5..f96134b 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -629,7 +629,11 @@ func PoolBuyOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Leg
 		if !rx.IsPositive() {
 			break
 		}
-		tick = PriceToDownTick(tick.Mul(oneDec.Sub(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		nextTick := PriceToDownTick(tick.Mul(oneDec.Sub(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		if nextTick.GTE(tick) { // the gap is lost in rounding
+			nextTick = DownTick(tick, tickPrec)
+		}
+		tick = nextTick
 	}
 	return orders
 }
@@ -676,7 +680,11 @@ func PoolSellOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Le
 		if !ry.GT(MinCoinAmount) {
 			break
 		}
-		tick = PriceToUpTick(tick.Mul(oneDec.Add(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		nextTick := PriceToUpTick(tick.Mul(oneDec.Add(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		if nextTick.LTE(tick) { // the gap is lost in rounding
+			nextTick = UpTick(tick, tickPrec)
+		}
+		tick = nextTick
 	}
 	return orders
 }
-- 
2.43.0


From 9ac8684ae36a22f5ab6cf973039996c5b1e7599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:31 +0000
Subject: [PATCH 13/14] fix: price ranged pools whose virtual base reserve is
 lost in rounding

A single asset pool of a few quote coins with a high price range made the end
blocker divide by zero when its pair had no last price.
---
 x/dex/amm/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index f96134b..e2e19d1 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -332,6 +332,9 @@ func (pool *RangedPool) Price() sdk.LegacyDec {
 	if pool.rx.IsZero() && pool.ry.IsZero() {
 		panic("pool price is not defined for a depleted pool")
 	}
+	if pool.yComp.IsZero() { // ry is zero and transY is lost in rounding
+		return pool.maxPrice
+	}
 	return pool.xComp.Quo(pool.yComp) // (rx + transX) / (ry + transY)
 }
 
-- 
2.43.0


From b38935c525687b49e48d54e2c263b7fb306f9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:31 +0000
Subject: [PATCH 14/14] fix: leave pools with too many coins to calculate with
 out of matching

Anyone can send coins to the reserve of a pool; with some 10^54 of them the
calculations of a ranged pool overflowed in the end blocker, and with 2^255
those of a basic pool did.  What a pool sells is bounded as what it buys is,
for the value of its orders overflowed too.
---
 x/dex/amm/pool.go    | 53 ++++++++++++++++++++++++++++++++------------
 x/dex/keeper/swap.go |  4 ++++
 x/dex/types/util.go  |  8 ++++---
 3 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index e2e19d1..fae8103 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -98,14 +98,14 @@ func (pool *BasicPool) IsDepleted() bool {
 func (pool *BasicPool) HighestBuyPrice() (price sdk.LegacyDec, found bool) {
 	// The highest buy price is actually a bit lower than pool price,
 	// but it's not important for our matching logic.
-	return pool.Price(), true
+	return calculablePrice(pool)
 }
 
 // LowestSellPrice returns the lowest sell price of the pool.
 func (pool *BasicPool) LowestSellPrice() (price sdk.LegacyDec, found bool) {
 	// The lowest sell price is actually a bit higher than the pool price,
 	// but it's not important for our matching logic.
-	return pool.Price(), true
+	return calculablePrice(pool)
 }
 
 // BuyAmountOver returns the amount of buy orders for price greater than
@@ -144,6 +144,8 @@ func (pool *BasicPool) SellAmountUnder(price sdk.LegacyDec, _ bool) (amt sdk.Int
 	amt = pool.ry.ToLegacyDec().Sub(pool.rx.ToLegacyDec().QuoRoundUp(price)).TruncateInt()
 	if !amt.IsPositive() {
 		return zeroInt
+	} else if amt.GT(MaxCoinAmount) {
+		amt = MaxCoinAmount
 	}
 	return
 }
@@ -194,6 +196,8 @@ func (pool *BasicPool) SellAmountTo(price sdk.LegacyDec) (amt sdk.Int) {
 	amt = pool.ry.ToLegacyDec().Sub(sqrtRx.Mul(sqrtRy).Quo(sqrtPrice)).TruncateInt()
 	if !amt.IsPositive() {
 		return zeroInt
+	} else if amt.GT(MaxCoinAmount) {
+		amt = MaxCoinAmount
 	}
 	return
 }
@@ -211,19 +215,22 @@ type RangedPool struct {
 }
 
 // NewRangedPool returns a new RangedPool.
+// A pool with too many coins to calculate with is left without a translation
+// and has no price.
 func NewRangedPool(rx, ry, ps sdk.Int, minPrice, maxPrice sdk.LegacyDec) *RangedPool {
-	transX, transY := DeriveTranslation(rx, ry, minPrice, maxPrice)
-	return &RangedPool{
+	pool := &RangedPool{
 		rx:       rx,
 		ry:       ry,
 		ps:       ps,
 		minPrice: minPrice,
 		maxPrice: maxPrice,
-		transX:   transX,
-		transY:   transY,
-		xComp:    rx.ToLegacyDec().Add(transX),
-		yComp:    ry.ToLegacyDec().Add(transY),
 	}
+	utils.SafeMath(func() {
+		pool.SetBalances(rx, ry, true)
+	}, func() {
+		pool.xComp, pool.yComp = sdk.LegacyDec{}, sdk.LegacyDec{}
+	})
+	return pool
 }
 
 // CreateRangedPool creates new RangedPool from given inputs, while validating
@@ -332,6 +339,9 @@ func (pool *RangedPool) Price() sdk.LegacyDec {
 	if pool.rx.IsZero() && pool.ry.IsZero() {
 		panic("pool price is not defined for a depleted pool")
 	}
+	if pool.xComp.IsNil() || pool.yComp.IsNil() {
+		panic("pool price overflow")
+	}
 	if pool.yComp.IsZero() { // ry is zero and transY is lost in rounding
 		return pool.maxPrice
 	}
@@ -347,14 +357,14 @@ func (pool *RangedPool) IsDepleted() bool {
 func (pool *RangedPool) HighestBuyPrice() (price sdk.LegacyDec, found bool) {
 	// The highest buy price is actually a bit lower than pool price,
 	// but it's not important for our matching logic.
-	return pool.Price(), true
+	return calculablePrice(pool)
 }
 
 // LowestSellPrice returns the lowest sell price of the pool.
 func (pool *RangedPool) LowestSellPrice() (price sdk.LegacyDec, found bool) {
 	// The lowest sell price is actually a bit higher than the pool price,
 	// but it's not important for our matching logic.
-	return pool.Price(), true
+	return calculablePrice(pool)
 }
 
 // BuyAmountOver returns the amount of buy orders for price greater than
@@ -401,6 +411,8 @@ func (pool *RangedPool) SellAmountUnder(price sdk.LegacyDec, _ bool) (amt sdk.In
 	}
 	if !amt.IsPositive() {
 		return zeroInt
+	} else if amt.GT(MaxCoinAmount) {
+		amt = MaxCoinAmount
 	}
 	return
 }
@@ -457,6 +469,8 @@ func (pool *RangedPool) SellAmountTo(price sdk.LegacyDec) (amt sdk.Int) {
 	}
 	if !amt.IsPositive() {
 		return zeroInt
+	} else if amt.GT(MaxCoinAmount) {
+		amt = MaxCoinAmount
 	}
 	return
 }
@@ -586,6 +600,17 @@ func DeriveTranslation(rx, ry sdk.Int, minPrice, maxPrice sdk.LegacyDec) (transX
 	return
 }
 
+// calculablePrice returns the price of the pool.
+// The price is not found if the pool has too many coins to calculate with.
+func calculablePrice(pool Pool) (price sdk.LegacyDec, found bool) {
+	utils.SafeMath(func() {
+		rx, ry := pool.Balances()
+		_ = rx.ToLegacyDec().Add(ry.ToLegacyDec()) // overflows if rx or ry does
+		price, found = pool.Price(), true
+	}, func() {})
+	return
+}
+
 func PoolOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.LegacyDec, tickPrec int) []Order {
 	return append(
 		PoolBuyOrders(pool, orderer, lowestPrice, highestPrice, tickPrec),
@@ -598,8 +623,8 @@ func PoolBuyOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Leg
 			orders = nil
 		}
 	}()
-	poolPrice := pool.Price()
-	if poolPrice.LTE(lowestPrice) {
+	poolPrice, found := calculablePrice(pool)
+	if !found || poolPrice.LTE(lowestPrice) {
 		return nil
 	}
 	tmpPool := pool.Clone()
@@ -647,8 +672,8 @@ func PoolSellOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Le
 			orders = nil
 		}
 	}()
-	poolPrice := pool.Price()
-	if poolPrice.GTE(highestPrice) {
+	poolPrice, found := calculablePrice(pool)
+	if !found || poolPrice.GTE(highestPrice) {
 		return nil
 	}
 	tmpPool := pool.Clone()
diff --git a/x/dex/keeper/swap.go b/x/dex/keeper/swap.go
index 8d7fc69..cbe6a80 100644
--- a/x/dex/keeper/swap.go
+++ b/x/dex/keeper/swap.go
@@ -327,6 +327,10 @@ func (k Keeper) ExecuteMatching(ctx sdk.Context, pair types.Pair) error {
 			k.MarkPoolAsDisabled(ctx, pool)
 			return false, nil
 		}
+		if _, found := ammPool.HighestBuyPrice(); !found {
+			// The pool has too many coins to calculate with.
+			return false, nil
+		}
 		pools = append(pools, ammPool)
 		return false, nil
 	})
diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index aeca50b..7481467 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -65,11 +65,13 @@ func (op *BulkSendCoinsOperation) Run(ctx sdk.Context, bankKeeper BankKeeper) er
 func NewPoolResponse(pool Pool, rx, ry sdk.Coin, poolCoinSupply math.Int) PoolResponse {
 	var price *math.LegacyDec
 	if !pool.Disabled {
-		// A depleted pool has no price until it is disabled.
+		// A depleted pool has no price until it is disabled, nor does a pool
+		// with too many coins to calculate with.
 		ammPool := pool.AMMPool(rx.Amount, ry.Amount, poolCoinSupply)
 		if !ammPool.IsDepleted() {
-			p := ammPool.Price()
-			price = &p
+			if p, found := ammPool.HighestBuyPrice(); found {
+				price = &p
+			}
 		}
 	}
 	return PoolResponse{
-- 
2.43.0

