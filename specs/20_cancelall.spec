property C10

func (keeper.Keeper).FinishOrder as finishUse
  modular
  option scoped
  params k ctx order status
  results err
  requires validaddr(order.Orderer) && pairok(order.PairId)
  requires order.RemainingOfferCoin.Amount >= 0
  requires has("Order", order.PairId, order.Id) && rec("Order", order.PairId, order.Id) == order
  modifies *kv.Order.Status *kv.NumMM *$bal
  ensures status: every("Order", p, i, rec("Order", p, i).Status == ite(p == order.PairId && i == order.Id && isnil(err) && !finished(order.Status), status, old(rec("Order", p, i).Status)))
  ensures only: onlychanges("kv.Order.Status", "kv.NumMM", "$bal")

define mine(m, p, i) = old(has("OrderIndex", addr(m.Orderer), p, i))
define early(p, i) = rec("Order", p, i).BatchId < rec("Pair", p).CurrentBatchId

func (keeper.Keeper).CancelAllOrders as cancelAll
  params k ctx msg
  results err
  using finishUse
  requires validaddr(msg.Orderer)
  requires every("OrderIndex", a, p, i, imp(has("OrderIndex", a, p, i), has("Order", p, i) && rec("Order", p, i).PairId == p && rec("Order", p, i).Id == i && addr(rec("Order", p, i).Orderer) == a && validaddr(rec("Order", p, i).Orderer) && (live(rec("Order", p, i).Status) || finished(rec("Order", p, i).Status)) && rec("Order", p, i).RemainingOfferCoin.Amount >= 0 && pairok(p)))
  loop 0: all(j, 0, rangeindex+1, inmap(pairIdSet, msg.PairIds[j]) && has("Pair", msg.PairIds[j]))
  loop 0: everykey(q, pairIdSet, !all(j, 0, rangeindex+1, msg.PairIds[j] != q))
  loop 0: everykey(q, orderPairCache, orderPairCache[q].CurrentBatchId == rec("Pair", q).CurrentBatchId)
  loop 0: imp(rangeindex >= 0, len(pairIdSet) > 0)
  loop 0: imp(rangeindex < 0, len(pairIdSet) == 0)
  loopin (keeper.Keeper).IterateOrdersByOrderer 0: every("Order", p, i, rec("Order", p, i).Status == ite(visited("OrderIndex", addr(msg.Orderer), p, i) && (len(pairIdSet) == 0 || inmap(pairIdSet, p)) && live(old(rec("Order", p, i).Status)) && early(p, i), types.OrderStatusCanceled, old(rec("Order", p, i).Status)))
  loopin (keeper.Keeper).IterateOrdersByOrderer 0: every("OrderIndex", y, imp(visited("OrderIndex", y), has("OrderIndex", y)))
  loopin (keeper.Keeper).IterateOrdersByOrderer 0: everykey(q, orderPairCache, orderPairCache[q].CurrentBatchId == rec("Pair", q).CurrentBatchId)
  ensures own: every("Order", p, i, imp(!mine(msg, p, i), rec("Order", p, i) == old(rec("Order", p, i)) && has("Order", p, i) == old(has("Order", p, i))))
  ensures named: every("Order", p, i, imp(len(msg.PairIds) > 0 && all(j, 0, len(msg.PairIds), msg.PairIds[j] != p), rec("Order", p, i) == old(rec("Order", p, i))))
  ensures batch: every("Order", p, i, imp(old(rec("Order", p, i).BatchId >= rec("Pair", p).CurrentBatchId), rec("Order", p, i) == old(rec("Order", p, i))))
  ensures dead: every("Order", p, i, imp(!live(old(rec("Order", p, i).Status)), rec("Order", p, i) == old(rec("Order", p, i))))
  ensures all0: imp(isnil(err) && len(msg.PairIds) == 0, every("Order", p, i, imp(mine(msg, p, i) && live(old(rec("Order", p, i).Status)) && old(early(p, i)), rec("Order", p, i).Status == types.OrderStatusCanceled)))
  ensures all1: imp(isnil(err), all(j, 0, len(msg.PairIds), every("Order", p, i, imp(p == msg.PairIds[j] && mine(msg, p, i) && live(old(rec("Order", p, i).Status)) && old(early(p, i)), rec("Order", p, i).Status == types.OrderStatusCanceled))))
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "$bal")
  ensures cover1: isnil(err) && len(msg.PairIds) > 1
