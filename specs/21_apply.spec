property C03
# Applying the outcome of a match: the stored record of each matched user order
# falls and grows by exactly what the order in the book paid, matched and
# received; every other record is as before.
define isuser(o) = dynis(o, "types.UserOrder")
define uo(o) = as(o, "types.UserOrder")
define hit(o) = isuser(o) && o.OpenAmount < o.Amount
define orec(pid, o) = rec("Order", pid, uo(o).OrderId)

func (keeper.Keeper).FinishOrder as finishApply
  modular
  option scoped
  params k ctx order status
  results err
  requires validaddr(order.Orderer) && pairok(order.PairId) && order.RemainingOfferCoin.Amount >= 0 && !finished(order.Status)
  modifies *kv.Order# *kv.Order. *kv.NumMM *$bal
  ensures stored: imp(isnil(err), has("Order", order.PairId, order.Id) && rec("Order", order.PairId, order.Id).Status == status && sameexcept(rec("Order", order.PairId, order.Id), order, "Status"))
  ensures others: others("Order", order.PairId, order.Id)
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "$bal")

func (*types.BulkSendCoinsOperation).QueueSendCoins as queueFrame
  modular
  option scoped
  params op from to cs
  modifies *types.BulkSendCoinsOperation *types.sendCoinsTx *[]*types.sendCoinsTx *map:map[types.sendCoinsTxKey]
  ensures only: onlychanges()

func (*types.BulkSendCoinsOperation).Run as runFrame
  modular
  option scoped
  params op ctx bank
  results err
  modifies *$bal
  ensures only: onlychanges("$bal")

define applied(pid, o) = has("Order", pid, uo(o).OrderId) && \
  orec(pid, o).OpenAmount == at0(orec(pid, o).OpenAmount) - (o.Amount - o.OpenAmount) && \
  orec(pid, o).RemainingOfferCoin.Amount == at0(orec(pid, o).RemainingOfferCoin.Amount) - o.PaidOfferCoinAmount && \
  orec(pid, o).ReceivedCoin.Amount == at0(orec(pid, o).ReceivedCoin.Amount) + o.ReceivedDemandCoinAmount && \
  orec(pid, o).Status == ite(orec(pid, o).OpenAmount == 0, types.OrderStatusCompleted, types.OrderStatusPartiallyMatched) && \
  sameexcept(orec(pid, o), at0(orec(pid, o)), "OpenAmount", "RemainingOfferCoin", "ReceivedCoin", "Status")

func (keeper.Keeper).ApplyMatchResult as applyMatch
  params k ctx pair orders qdiff
  results err
  using finishApply queueFrame runFrame
  forall q r
  requires pairok(pair.Id)
  requires all(i, 0, len(orders), isuser(orders[i]) || dynis(orders[i], "types.PoolOrder"))
  requires all(i, 0, len(orders), all(j, 0, i, imp(hit(orders[i]) && hit(orders[j]), uo(orders[i]).OrderId != uo(orders[j]).OrderId)))
  requires all(i, 0, len(orders), imp(hit(orders[i]), has("Order", pair.Id, uo(orders[i]).OrderId) && orec(pair.Id, orders[i]).PairId == pair.Id && orec(pair.Id, orders[i]).Id == uo(orders[i]).OrderId && validaddr(orec(pair.Id, orders[i]).Orderer) && live(orec(pair.Id, orders[i]).Status)))
  loop 1: all(i, 0, rangeindex+1, imp(hit(orders[i]), applied(pair.Id, orders[i])))
  loop 1: all(i, rangeindex+1, len(orders), imp(hit(orders[i]), orec(pair.Id, orders[i]) == at0(orec(pair.Id, orders[i])) && has("Order", pair.Id, uo(orders[i]).OrderId)))
  loop 1: imp(all(i, 0, rangeindex+1, !hit(orders[i]) || uo(orders[i]).OrderId != q), rec("Order", pair.Id, q) == at0(rec("Order", pair.Id, q)) && has("Order", pair.Id, q) == at0(has("Order", pair.Id, q)))
  loop 1: imp(r != pair.Id, rec("Order", r, q) == at0(rec("Order", r, q)) && has("Order", r, q) == at0(has("Order", r, q)))
  ensures applied: imp(isnil(err), all(i, 0, len(orders), imp(hit(orders[i]), applied(pair.Id, orders[i]))))
  ensures others: imp(isnil(err) && all(i, 0, len(orders), !hit(orders[i]) || uo(orders[i]).OrderId != q), rec("Order", pair.Id, q) == old(rec("Order", pair.Id, q)) && has("Order", pair.Id, q) == old(has("Order", pair.Id, q)))
  ensures pairs: imp(r != pair.Id, rec("Order", r, q) == old(rec("Order", r, q)) && has("Order", r, q) == old(has("Order", r, q)))
  ensures dead: imp(isnil(err) && !live(old(rec("Order", pair.Id, q).Status)), rec("Order", pair.Id, q) == old(rec("Order", pair.Id, q)) && has("Order", pair.Id, q) == old(has("Order", pair.Id, q)))
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "$bal")
  ensures cover1: isnil(err) && len(orders) > 1
