property C21

define maxCoin() = 10000000000000000000000000000000000000000
define inRange(a) = 100 <= a && a <= maxCoin()

func (types.MsgCreatePair).ValidateBasic as msgCreatePair
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Creator) && validdenom(msg.BaseCoinDenom) && validdenom(msg.QuoteCoinDenom) && msg.BaseCoinDenom != msg.QuoteCoinDenom)
  ensures cover1: isnil(err)

func (types.MsgCreatePool).ValidateBasic as msgCreatePool
  params msg
  results err
  forall d string
  ensures ok: imp(isnil(err), validaddr(msg.Creator) && msg.PairId != 0 && len(msg.DepositCoins) == 2)
  loop 0: all(i, 0, rangeindex+1, entry(msg.DepositCoins, i).Amount <= maxCoin())
  ensures max: imp(isnil(err), 0 <= amt(msg.DepositCoins, d) && amt(msg.DepositCoins, d) <= maxCoin())
  ensures cover1: isnil(err)

func (types.MsgCreateRangedPool).ValidateBasic as msgCreateRanged
  params msg
  results err
  forall d string
  ensures ok: imp(isnil(err), validaddr(msg.Creator) && msg.PairId != 0 && (len(msg.DepositCoins) == 1 || len(msg.DepositCoins) == 2))
  loop 0: all(i, 0, rangeindex+1, entry(msg.DepositCoins, i).Amount <= maxCoin())
  ensures max: imp(isnil(err), 0 <= amt(msg.DepositCoins, d) && amt(msg.DepositCoins, d) <= maxCoin())
  ensures prices: imp(isnil(err), gvar("amm.MinPoolPrice") <= msg.MinPrice && msg.MaxPrice <= gvar("amm.MaxPoolPrice") && msg.MinPrice < msg.MaxPrice && msg.MinPrice <= msg.InitialPrice && msg.InitialPrice <= msg.MaxPrice)
  ensures cover1: isnil(err)

func (types.MsgDeposit).ValidateBasic as msgDeposit
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Depositor) && msg.PoolId != 0 && (len(msg.DepositCoins) == 1 || len(msg.DepositCoins) == 2))
  ensures cover1: isnil(err)

func (types.MsgWithdraw).ValidateBasic as msgWithdraw
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Withdrawer) && msg.PoolId != 0 && validdenom(msg.PoolCoin.Denom) && msg.PoolCoin.Amount > 0)
  ensures cover1: isnil(err)

func (types.MsgLimitOrder).ValidateBasic as msgLimit
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Orderer) && msg.PairId != 0 && (msg.Direction == types.OrderDirectionBuy || msg.Direction == types.OrderDirectionSell) && msg.OrderLifespan >= 0)
  ensures denoms: imp(isnil(err), validdenom(msg.OfferCoin.Denom) && validdenom(msg.DemandCoinDenom) && msg.OfferCoin.Denom != msg.DemandCoinDenom)
  ensures amounts: imp(isnil(err), msg.Price > 0 && inRange(msg.Amount) && inRange(msg.OfferCoin.Amount))
  ensures coversBuy: imp(isnil(err) && msg.Direction == types.OrderDirectionBuy, msg.Price * msg.Amount <= msg.OfferCoin.Amount * P)
  ensures coversSell: imp(isnil(err) && msg.Direction == types.OrderDirectionSell, msg.Amount <= msg.OfferCoin.Amount)
  ensures cover1: isnil(err) && msg.Direction == types.OrderDirectionBuy
  ensures cover2: isnil(err) && msg.Direction == types.OrderDirectionSell

func (types.MsgMMOrder).ValidateBasic as msgMM
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Orderer) && msg.PairId != 0 && (msg.Direction == types.OrderDirectionBuy || msg.Direction == types.OrderDirectionSell) && msg.OrderLifespan >= 0)
  ensures denoms: imp(isnil(err), validdenom(msg.OfferCoin.Denom) && validdenom(msg.DemandCoinDenom) && msg.OfferCoin.Denom != msg.DemandCoinDenom)
  ensures amounts: imp(isnil(err), msg.Price > 0 && inRange(msg.Amount) && inRange(msg.OfferCoin.Amount))
  ensures coversBuy: imp(isnil(err) && msg.Direction == types.OrderDirectionBuy, msg.Price * msg.Amount <= msg.OfferCoin.Amount * P)
  ensures coversSell: imp(isnil(err) && msg.Direction == types.OrderDirectionSell, msg.Amount <= msg.OfferCoin.Amount)
  ensures cover1: isnil(err) && msg.Direction == types.OrderDirectionBuy
  ensures cover2: isnil(err) && msg.Direction == types.OrderDirectionSell

func (types.MsgMarketOrder).ValidateBasic as msgMarket
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Orderer) && msg.PairId != 0 && (msg.Direction == types.OrderDirectionBuy || msg.Direction == types.OrderDirectionSell) && msg.OrderLifespan >= 0)
  ensures denoms: imp(isnil(err), validdenom(msg.OfferCoin.Denom) && validdenom(msg.DemandCoinDenom) && msg.OfferCoin.Denom != msg.DemandCoinDenom)
  ensures amounts: imp(isnil(err), inRange(msg.Amount) && inRange(msg.OfferCoin.Amount))
  ensures cover1: isnil(err)

func (types.MsgCancelOrder).ValidateBasic as msgCancel
  params msg
  results err
  ensures ok: imp(isnil(err), validaddr(msg.Orderer) && msg.PairId != 0 && msg.OrderId != 0)
  ensures cover1: isnil(err)

func (types.MsgCancelAllOrders).ValidateBasic as msgCancelAll
  params msg
  results err
  forall i int
  forall j int
  ensures ok: imp(isnil(err), validaddr(msg.Orderer))
  loop 0: all(a, 0, rangeindex+1, msg.PairIds[a] != 0 && inmap(pairIdSet, msg.PairIds[a]))
  loop 0: all(b, 0, rangeindex+1, all(a, 0, b, msg.PairIds[a] != msg.PairIds[b]))
  ensures nonzero: imp(isnil(err) && 0 <= i && i < len(msg.PairIds), msg.PairIds[i] != 0)
  ensures distinct: imp(isnil(err) && 0 <= i && i < j && j < len(msg.PairIds), msg.PairIds[i] != msg.PairIds[j])
  ensures cover1: isnil(err)

