property C03

define live(s) = s == types.OrderStatusNotExecuted || s == types.OrderStatusNotMatched || s == types.OrderStatusPartiallyMatched
define finished(s) = s == types.OrderStatusCompleted || s == types.OrderStatusCanceled || s == types.OrderStatusExpired
define escrow(id) = addr(rec("Pair", id).EscrowAddress)
define pairok(id) = has("Pair", id) && validaddr(rec("Pair", id).EscrowAddress)

func (keeper.Keeper).FinishOrder as finishOrder
  params k ctx order status
  results err
  requires validaddr(order.Orderer) && pairok(order.PairId)
  requires order.RemainingOfferCoin.Amount >= 0 
  ensures done: imp(finished(order.Status), isnil(err) && onlychanges())
  ensures moved: imp(isnil(err) && !finished(order.Status), moves(escrow(order.PairId), addr(order.Orderer), coin(order.RemainingOfferCoin.Denom, order.RemainingOfferCoin.Amount)))
  ensures stored: imp(isnil(err) && !finished(order.Status), has("Order", order.PairId, order.Id) && rec("Order", order.PairId, order.Id).Status == status && sameexcept(rec("Order", order.PairId, order.Id), order, "Status"))
  ensures others: others("Order", order.PairId, order.Id)
  ensures failed: imp(!isnil(err), onlychanges())
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "$bal")
  ensures cover1: !isnil(err)
  ensures cover2: isnil(err) && !finished(order.Status)

property C14

define nmm(a, p) = ite(has("NumMM", a, p), rec("NumMM", a, p), 0)
define nmmok(a, p) = imp(has("NumMM", a, p), 1 <= rec("NumMM", a, p) && rec("NumMM", a, p) < 4294967296)

func (keeper.Keeper).FinishOrder as finishCount
  params k ctx order status
  results err
  requires validaddr(order.Orderer) && pairok(order.PairId) && nmmok(addr(order.Orderer), order.PairId)
  requires order.RemainingOfferCoin.Amount >= 0 
  requires imp(order.Type == types.OrderTypeMM && !finished(order.Status), has("NumMM", addr(order.Orderer), order.PairId))
  ensures others: others("NumMM", addr(order.Orderer), order.PairId)
  ensures ok: nmmok(addr(order.Orderer), order.PairId)
  ensures down: imp(isnil(err) && order.Type == types.OrderTypeMM && !finished(order.Status), nmm(addr(order.Orderer), order.PairId) == old(nmm(addr(order.Orderer), order.PairId)) - 1)
  ensures same: imp(!isnil(err) || order.Type != types.OrderTypeMM || finished(order.Status), nmm(addr(order.Orderer), order.PairId) == old(nmm(addr(order.Orderer), order.PairId)))
  ensures cover1: order.Type == types.OrderTypeMM && !has("NumMM", addr(order.Orderer), order.PairId)

func (keeper.Keeper).MMOrder as mmOrder
  params k ctx msg
  using tickDownUse tickUpUse
  results order err
  requires validaddr(msg.Orderer) && pairok(msg.PairId) && nmmok(addr(msg.Orderer), msg.PairId)
  requires msg.Amount > 0 && msg.Price > 0 && msg.OfferCoin.Amount > 0
  ensures others: others("NumMM", addr(msg.Orderer), msg.PairId)
  ensures up: imp(isnil(err), nmm(addr(msg.Orderer), msg.PairId) == old(nmm(addr(msg.Orderer), msg.PairId)) + 1)
  ensures limit: imp(isnil(err), nmm(addr(msg.Orderer), msg.PairId) <= param("MaxNumMarketMakingOrdersPerPair"))
  ensures kind: imp(isnil(err), order.Type == types.OrderTypeMM)
  ensures same: imp(!isnil(err), onlychanges())
  ensures cover1: isnil(err)
  ensures cover2: !isnil(err)

func (keeper.Keeper).LimitOrder as limitCount
  params k ctx msg
  using tickDownUse tickUpUse
  results order err
  requires validaddr(msg.Orderer) && pairok(msg.PairId)
  requires msg.Amount > 0 && msg.Price > 0 && msg.OfferCoin.Amount > 0
  ensures same: onlychanges("kv.Order#", "kv.Order.", "kv.OrderIndex", "kv.Pair#", "kv.Pair.", "$bal")

property C10

func (keeper.Keeper).CancelOrder as cancelOrder
  params k ctx msg
  results err
  requires imp(has("Order", msg.PairId, msg.OrderId), rec("Order", msg.PairId, msg.OrderId).PairId == msg.PairId && rec("Order", msg.PairId, msg.OrderId).Id == msg.OrderId && rec("Order", msg.PairId, msg.OrderId).RemainingOfferCoin.Amount >= 0 && validaddr(rec("Order", msg.PairId, msg.OrderId).Orderer) && pairok(msg.PairId))
  ensures owner: imp(isnil(err), old(has("Order", msg.PairId, msg.OrderId)) && msg.Orderer == old(rec("Order", msg.PairId, msg.OrderId).Orderer))
  ensures notCanceled: imp(isnil(err), old(rec("Order", msg.PairId, msg.OrderId).Status) != types.OrderStatusCanceled)
  ensures batch: imp(isnil(err), old(rec("Order", msg.PairId, msg.OrderId).BatchId) != rec("Pair", msg.PairId).CurrentBatchId)
  ensures canceled: imp(isnil(err) && live(old(rec("Order", msg.PairId, msg.OrderId).Status)), rec("Order", msg.PairId, msg.OrderId).Status == types.OrderStatusCanceled)
  ensures refused: imp(!isnil(err), onlychanges())
  ensures others: others("Order", msg.PairId, msg.OrderId)
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "$bal")
  ensures cover1: isnil(err)

property C09

define lastp(id) = rec("Pair", id).LastPrice
define maxratio() = param("MaxPriceLimitRatio")
define prec() = param("TickPrecision")
define isBuy(d) = d == types.OrderDirectionBuy
define isSell(d) = d == types.OrderDirectionSell
define floorOf(q, a, b) = q * P <= a * b && a * b < (q + 1) * P

func (keeper.Keeper).placeOrder as placeOrder
  params k ctx typ ordererAddr pairId direction offerCoin demandCoinDenom price amount lifespan
  using tickDownUse tickUpUse
  results order err
  requires imp(has("Pair", pairId), pairok(pairId) && rec("Pair", pairId).Id == pairId && rec("Pair", pairId).BaseCoinDenom != rec("Pair", pairId).QuoteCoinDenom)
  requires amount > 0 && offerCoin.Amount > 0 && price > 0 && ordererAddr != nil
  requires isBuy(direction) || isSell(direction)
  requires 0 <= maxratio() && maxratio() < P
  requires isnil(lastp(pairId)) || lastp(pairId) > 0
  ensures failed: imp(!isnil(err), onlychanges())
  ensures span: imp(isnil(err), old(spendable(ordererAddr, offerCoin.Denom)) >= offerCoin.Amount && lifespan <= param("MaxOrderLifespan"))
  ensures exact: imp(isnil(err), order.OfferCoin.Denom == offerCoin.Denom && order.OfferCoin.Amount <= offerCoin.Amount && ite(isBuy(direction), isCeilQ(order.OfferCoin.Amount, order.Price, amount), order.OfferCoin.Amount == amount))
  ensures charged: imp(isnil(err), moves(ordererAddr, escrow(pairId), coin(order.OfferCoin.Denom, order.OfferCoin.Amount)) && order.RemainingOfferCoin.Amount == order.OfferCoin.Amount && order.RemainingOfferCoin.Denom == order.OfferCoin.Denom)
  ensures denoms: imp(isnil(err), has("Pair", pairId) && ite(isBuy(direction), offerCoin.Denom == rec("Pair", pairId).QuoteCoinDenom && demandCoinDenom == rec("Pair", pairId).BaseCoinDenom, offerCoin.Denom == rec("Pair", pairId).BaseCoinDenom && demandCoinDenom == rec("Pair", pairId).QuoteCoinDenom) && order.ReceivedCoin.Denom == demandCoinDenom)
  ensures priceBuy: imp(isnil(err) && typ != types.OrderTypeMarket && isBuy(direction), order.Price == amm__PriceToDownTick(price, prec()) && order.Price <= price)
  ensures priceSell: imp(isnil(err) && typ != types.OrderTypeMarket && isSell(direction), order.Price == amm__PriceToUpTick(price, prec()) && order.Price >= price)
  ensures bandHigh: imp(isnil(err) && typ != types.OrderTypeMarket && !isnil(lastp(pairId)), price * P <= lastp(pairId) * (P + maxratio()) + P / 2)
  ensures bandLow: imp(isnil(err) && typ != types.OrderTypeMarket && !isnil(lastp(pairId)) && decmul(lastp(pairId), P - maxratio()) > 0, price * P >= lastp(pairId) * (P - maxratio()) - P / 2)
  ensures band0: imp(isnil(err) && typ != types.OrderTypeMarket && isnil(lastp(pairId)), price <= amm__HighestTick(prec()) && price >= amm__LowestTick(prec()))
  ensures marketLast: imp(isnil(err) && typ == types.OrderTypeMarket, !isnil(lastp(pairId)))
  ensures marketBuy: imp(isnil(err) && typ == types.OrderTypeMarket && isBuy(direction), order.Price == amm__PriceToDownTick(decmul(lastp(pairId), P + maxratio()), prec()))
  ensures marketSell: imp(isnil(err) && typ == types.OrderTypeMarket && isSell(direction), order.Price == amm__PriceToUpTick(decmul(lastp(pairId), P - maxratio()), prec()))
  ensures worth: imp(isnil(err), amount >= 100 && order.Price * amount >= 100 * P)
  ensures stored: imp(isnil(err), has("Order", pairId, order.Id) && rec("Order", pairId, order.Id) == order && has("OrderIndex", ordererAddr, pairId, order.Id) && others("Order", pairId, order.Id) && others("OrderIndex", ordererAddr, pairId, order.Id))
  ensures pair: imp(isnil(err), others("Pair", pairId) && sameexcept(rec("Pair", pairId), old(rec("Pair", pairId)), "LastOrderId") && rec("Pair", pairId).LastOrderId == order.Id)
  ensures f0: imp(isnil(err), order.Type == typ)
  ensures f1: imp(isnil(err), order.PairId == pairId)
  ensures f2: imp(isnil(err), order.BatchId == old(rec("Pair", pairId).CurrentBatchId))
  ensures f3: imp(isnil(err), order.Id == old(rec("Pair", pairId).LastOrderId) + 1)
  ensures f4: imp(isnil(err), order.Direction == direction)
  ensures f5: imp(isnil(err), order.Amount == amount)
  ensures f6: imp(isnil(err), order.OpenAmount == amount)
  ensures f7: imp(isnil(err), order.Status == types.OrderStatusNotExecuted)
  ensures f8: imp(isnil(err), order.Orderer == bech32(ordererAddr))
  ensures f9: imp(isnil(err), order.ReceivedCoin.Amount == 0)
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.OrderIndex", "kv.Pair#", "kv.Pair.", "$bal")
  ensures coverLimit: isnil(err) && typ == types.OrderTypeLimit && isBuy(direction)
  ensures coverMarket: isnil(err) && typ == types.OrderTypeMarket && isSell(direction)
  ensures coverFirst: isnil(err) && isnil(lastp(pairId))
