property C20

define okorder(x) = imp(has("Order", x), rec("Order", x).PairId == part("Order", x, 0) && rec("Order", x).Id == part("Order", x, 1) && validaddr(rec("Order", x).Orderer))
define okdeposit(x) = imp(has("DepositRequest", x), rec("DepositRequest", x).PoolId == part("DepositRequest", x, 0) && rec("DepositRequest", x).Id == part("DepositRequest", x, 1) && validaddr(rec("DepositRequest", x).Depositor))
define okwithdraw(x) = imp(has("WithdrawRequest", x), rec("WithdrawRequest", x).PoolId == part("WithdrawRequest", x, 0) && rec("WithdrawRequest", x).Id == part("WithdrawRequest", x, 1) && validaddr(rec("WithdrawRequest", x).Withdrawer))
define rdone(s) = s == types.RequestStatusSucceeded || s == types.RequestStatusFailed
define deadorder(x) = finished(rec("Order", x).Status)
define deaddeposit(x) = rdone(rec("DepositRequest", x).Status)
define deadwithdraw(x) = rdone(rec("WithdrawRequest", x).Status)

func (keeper.Keeper).DeleteOutdatedRequests as deleteOutdated
  params k ctx
  requires every("Order", x, okorder(x))
  requires every("DepositRequest", x, okdeposit(x))
  requires every("WithdrawRequest", x, okwithdraw(x))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: every("DepositRequest", x, has("DepositRequest", x) == (old(has("DepositRequest", x)) && !(visited("DepositRequest", x) && deaddeposit(x))))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: every("DepositIndex", a, p, i, has("DepositIndex", a, p, i) == (old(has("DepositIndex", a, p, i)) && !(visited("DepositRequest", kvref("DepositRequest", p, i)) && deaddeposit(kvref("DepositRequest", p, i)) && addr(rec("DepositRequest", kvref("DepositRequest", p, i)).Depositor) == a)))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: every("WithdrawRequest", x, has("WithdrawRequest", x) == (old(has("WithdrawRequest", x)) && !(visited("WithdrawRequest", x) && deadwithdraw(x))))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: every("WithdrawIndex", a, p, i, has("WithdrawIndex", a, p, i) == (old(has("WithdrawIndex", a, p, i)) && !(visited("WithdrawRequest", kvref("WithdrawRequest", p, i)) && deadwithdraw(kvref("WithdrawRequest", p, i)) && addr(rec("WithdrawRequest", kvref("WithdrawRequest", p, i)).Withdrawer) == a)))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", x, has("Order", x) == (old(has("Order", x)) && !(visited("Order", x) && deadorder(x))))
  loopin (keeper.Keeper).IterateAllOrders 0: every("OrderIndex", a, p, i, has("OrderIndex", a, p, i) == (old(has("OrderIndex", a, p, i)) && !(visited("Order", kvref("Order", p, i)) && deadorder(kvref("Order", p, i)) && addr(rec("Order", kvref("Order", p, i)).Orderer) == a)))
  ensures orders: every("Order", x, has("Order", x) == (old(has("Order", x)) && !old(deadorder(x))))
  ensures orderIndex: every("OrderIndex", a, p, i, has("OrderIndex", a, p, i) == (old(has("OrderIndex", a, p, i)) && !(old(has("Order", kvref("Order", p, i))) && deadorder(kvref("Order", p, i)) && addr(rec("Order", kvref("Order", p, i)).Orderer) == a)))
  ensures deposits: every("DepositRequest", x, has("DepositRequest", x) == (old(has("DepositRequest", x)) && !old(deaddeposit(x))))
  ensures depositIndex: every("DepositIndex", a, p, i, has("DepositIndex", a, p, i) == (old(has("DepositIndex", a, p, i)) && !(old(has("DepositRequest", kvref("DepositRequest", p, i))) && deaddeposit(kvref("DepositRequest", p, i)) && addr(rec("DepositRequest", kvref("DepositRequest", p, i)).Depositor) == a)))
  ensures withdraws: every("WithdrawRequest", x, has("WithdrawRequest", x) == (old(has("WithdrawRequest", x)) && !old(deadwithdraw(x))))
  ensures withdrawIndex: every("WithdrawIndex", a, p, i, has("WithdrawIndex", a, p, i) == (old(has("WithdrawIndex", a, p, i)) && !(old(has("WithdrawRequest", kvref("WithdrawRequest", p, i))) && deadwithdraw(kvref("WithdrawRequest", p, i)) && addr(rec("WithdrawRequest", kvref("WithdrawRequest", p, i)).Withdrawer) == a)))
  ensures only: onlychanges("kv.Order#", "kv.OrderIndex#", "kv.DepositRequest#", "kv.DepositIndex#", "kv.WithdrawRequest#", "kv.WithdrawIndex#")
  ensures cover1: true
