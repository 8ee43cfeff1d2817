property C20
# One batch: what matching does to the orders of a pair, and what the end of the
# block does after it.

func (*amm.OrderBook).AddOrder as bookAdd
  modular
  option scoped
  option effects
  params ob orders
  modifies heap
  ensures only: onlychanges()

func (*amm.OrderBook).Orders as bookOrders
  modular
  option scoped
  option effects
  params ob
  modifies heap
  ensures only: onlychanges()

func (keeper.Keeper).Match as matchFrame
  modular
  option scoped
  option effects
  params k ctx ob pools last
  modifies heap
  ensures only: onlychanges()

func types.NewPoolOrderer as poolOrdererFrame
  modular
  option scoped
  option effects
  params pool id reserve base quote
  ensures only: onlychanges()

func (types.Pool).AMMPool as ammPoolFrame
  modular
  option scoped
  option effects
  ensures only: onlychanges()

func (types.PoolOrderer).IsDepleted as depletedFrame
  modular
  option scoped
  option effects
  ensures only: onlychanges()

define due(o) = o.ExpireAt <= blocktime()
define keptord(a, b) = sameexcept(a, b, "OpenAmount", "RemainingOfferCoin", "ReceivedCoin", "Status")
define ordok(p, i) = rec("Order", p, i).PairId == p && rec("Order", p, i).Id == i && validaddr(rec("Order", p, i).Orderer) && rec("Order", p, i).RemainingOfferCoin.Amount >= 0 && known(rec("Order", p, i).Status)
define known(s) = live(s) || finished(s)

# what enters the book: live orders only, and expired ones only in their first batch
func types.NewUserOrder as bookedOnly
  modular
  option scoped
  option effects
  params order
  requires live(order.Status) && (order.Status == types.OrderStatusNotExecuted || !due(order))
  ensures only: onlychanges()

# the part of ApplyMatchResult's contract (unit applyMatch, C03) used here; that the
# book's matched user orders are distinct live orders of the pair is assumed
func (keeper.Keeper).ApplyMatchResult as applyUse
  modular
  noverify
  option scoped
  params k ctx pair orders qdiff
  results err
  modifies *kv.Order# *kv.Order. *kv.NumMM *$bal heap
  ensures dead: every("Order", r, q, imp(r != pair.Id || !live(old(rec("Order", r, q).Status)), rec("Order", r, q) == old(rec("Order", r, q)) && has("Order", r, q) == old(has("Order", r, q))))
  ensures kept: every("Order", r, q, has("Order", r, q) == old(has("Order", r, q)) && keptord(rec("Order", r, q), old(rec("Order", r, q))))
  ensures status: every("Order", r, q, rec("Order", r, q).Status == old(rec("Order", r, q).Status) || rec("Order", r, q).Status == types.OrderStatusPartiallyMatched || rec("Order", r, q).Status == types.OrderStatusCompleted)
  ensures nonneg: every("Order", r, q, imp(old(rec("Order", r, q).RemainingOfferCoin.Amount >= 0), rec("Order", r, q).RemainingOfferCoin.Amount >= 0))
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "$bal")

func (keeper.Keeper).ExecuteMatching as matchPair
  modular
  option scoped
  params k ctx pair
  results err
  using finishUse depletedFrame bookAdd bookOrders matchFrame poolOrdererFrame ammPoolFrame bookedOnly applyUse
  requires pairok(pair.Id) && rec("Pair", pair.Id) == pair
  requires every("Order", p, i, imp(has("Order", p, i), ordok(p, i)))
  requires every("Pool", i, imp(has("Pool", i), rec("Pool", i).Id == i))
  requires every("PoolsByPair", p, i, imp(has("PoolsByPair", p, i), has("Pool", i)))
  modifies *kv.Order# *kv.Order. *kv.NumMM *kv.Pair# *kv.Pair. *kv.Pool# *kv.Pool. *$bal heap
  loopin (keeper.Keeper).IterateOrdersByPair 0: every("Order", p, i, has("Order", p, i) == at0(has("Order", p, i)) && sameexcept(rec("Order", p, i), at0(rec("Order", p, i)), "Status"))
  loopin (keeper.Keeper).IterateOrdersByPair 0: every("Order", p, i, rec("Order", p, i).Status == ite(visited("Order", p, i) && live(at0(rec("Order", p, i).Status)), ite(at0(rec("Order", p, i).Status) == types.OrderStatusNotExecuted, types.OrderStatusNotMatched, ite(at0(due(rec("Order", p, i))), types.OrderStatusExpired, at0(rec("Order", p, i).Status))), at0(rec("Order", p, i).Status)))
  loopin (keeper.Keeper).IteratePoolsByPair 0: every("Pool", x, has("Pool", x) == at0(has("Pool", x)) && sameexcept(rec("Pool", x), at0(rec("Pool", x)), "Disabled"))
  ensures dead: imp(isnil(err), every("Order", r, q, imp(r != pair.Id || !live(old(rec("Order", r, q).Status)), rec("Order", r, q) == old(rec("Order", r, q)))))
  ensures kept: imp(isnil(err), every("Order", r, q, has("Order", r, q) == old(has("Order", r, q)) && keptord(rec("Order", r, q), old(rec("Order", r, q)))))
  ensures known: imp(isnil(err), every("Order", r, q, imp(has("Order", r, q), known(rec("Order", r, q).Status) && rec("Order", r, q).RemainingOfferCoin.Amount >= 0)))
  ensures expired: imp(isnil(err), every("Order", r, q, imp(has("Order", r, q) && r == pair.Id && live(old(rec("Order", r, q).Status)) && old(rec("Order", r, q).Status) != types.OrderStatusNotExecuted && old(due(rec("Order", r, q))), rec("Order", r, q).Status == types.OrderStatusExpired)))
  ensures first: imp(isnil(err), every("Order", r, q, imp(has("Order", r, q) && r == pair.Id, rec("Order", r, q).Status != types.OrderStatusNotExecuted)))
  ensures pair: imp(isnil(err), has("Pair", pair.Id) && rec("Pair", pair.Id).CurrentBatchId == pair.CurrentBatchId + 1 && others("Pair", pair.Id) && sameexcept(rec("Pair", pair.Id), pair, "CurrentBatchId", "LastPrice"))
  ensures pools: imp(isnil(err), every("Pool", x, has("Pool", x) == old(has("Pool", x)) && sameexcept(rec("Pool", x), old(rec("Pool", x)), "Disabled")))
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.NumMM", "kv.Pair#", "kv.Pair.", "kv.Pool#", "kv.Pool.", "$bal")
  ensures cover1: isnil(err)

func amm.Withdraw as withdrawAny
  modular
  option scoped
  option effects
  ensures only: onlychanges()

func amm.Deposit as depositAny
  modular
  option scoped
  option effects
  ensures only: onlychanges()

define settled(s) = s == types.RequestStatusSucceeded || s == types.RequestStatusFailed
define depok(p, i) = rec("DepositRequest", p, i).PoolId == p && rec("DepositRequest", p, i).Id == i && validaddr(rec("DepositRequest", p, i).Depositor) && poolok(p) && imp(waiting(rec("DepositRequest", p, i)), len(rec("DepositRequest", p, i).AcceptedCoins) == 0)
define witok(p, i) = rec("WithdrawRequest", p, i).PoolId == p && rec("WithdrawRequest", p, i).Id == i && validaddr(rec("WithdrawRequest", p, i).Withdrawer) && poolok(p) && rec("WithdrawRequest", p, i).PoolCoin.Amount > 0 && rec("WithdrawRequest", p, i).PoolCoin.Denom == pcd(p)

func (keeper.Keeper).ExecuteDepositRequest as depUse
  modular
  option scoped
  params k ctx req
  results err
  using depositAny depletedFrame ammPoolFrame
  requires waiting(req) && poolok(req.PoolId) && validaddr(req.Depositor)
  requires has("DepositRequest", req.PoolId, req.Id) && rec("DepositRequest", req.PoolId, req.Id) == req
  modifies *kv.DepositRequest.Status *kv.DepositRequest.AcceptedCoins *kv.DepositRequest.MintedPoolCoin *kv.Pool# *kv.Pool. *$bal *$supply heap
  ensures settled: imp(isnil(err), settled(rec("DepositRequest", req.PoolId, req.Id).Status))
  ensures others: others("DepositRequest", req.PoolId, req.Id)
  ensures pool: has("Pool", req.PoolId) && sameexcept(rec("Pool", req.PoolId), old(rec("Pool", req.PoolId)), "Disabled") && others("Pool", req.PoolId)

func (keeper.Keeper).ExecuteWithdrawRequest as witUse
  modular
  option scoped
  params k ctx req
  results err
  using withdrawAny depletedFrame ammPoolFrame
  requires waiting(req) && poolok(req.PoolId) && validaddr(req.Withdrawer) && req.PoolCoin.Amount > 0
  requires has("WithdrawRequest", req.PoolId, req.Id) && rec("WithdrawRequest", req.PoolId, req.Id) == req
  modifies *kv.WithdrawRequest.Status *kv.WithdrawRequest.WithdrawnCoins *kv.Pool# *kv.Pool. *$bal *$supply heap
  ensures settled: imp(isnil(err), settled(rec("WithdrawRequest", req.PoolId, req.Id).Status))
  ensures others: others("WithdrawRequest", req.PoolId, req.Id)
  ensures pool: has("Pool", req.PoolId) && sameexcept(rec("Pool", req.PoolId), old(rec("Pool", req.PoolId)), "Disabled") && others("Pool", req.PoolId)

define small(o) = o.OpenAmount < 100 || o.Price * o.OpenAmount < 100 * P

func (keeper.Keeper).ExecuteRequests as executeRequests
  params k ctx
  using matchPair finishUse depUse witUse
  requires every("Pair", x, imp(has("Pair", x), rec("Pair", x).Id == part("Pair", x, 0) && validaddr(rec("Pair", x).EscrowAddress)))
  requires every("Order", p, i, imp(has("Order", p, i), ordok(p, i) && has("Pair", p)))
  requires every("Pool", i, imp(has("Pool", i), rec("Pool", i).Id == i))
  requires every("PoolsByPair", p, i, imp(has("PoolsByPair", p, i), has("Pool", i)))
  requires every("DepositRequest", p, i, imp(has("DepositRequest", p, i), depok(p, i)))
  requires every("WithdrawRequest", p, i, imp(has("WithdrawRequest", p, i), witok(p, i)))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Order", p, i, has("Order", p, i) == at0(has("Order", p, i)) && keptord(rec("Order", p, i), at0(rec("Order", p, i))))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Order", p, i, imp(has("Order", p, i), ordok(p, i)))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Order", p, i, imp(!live(at0(rec("Order", p, i).Status)), rec("Order", p, i) == at0(rec("Order", p, i))))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Order", p, i, imp(has("Order", p, i) && visited("Pair", p), rec("Order", p, i).Status != types.OrderStatusNotExecuted))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Pool", x, has("Pool", x) == at0(has("Pool", x)) && sameexcept(rec("Pool", x), at0(rec("Pool", x)), "Disabled"))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Pair", x, has("Pair", x) == at0(has("Pair", x)) && sameexcept(rec("Pair", x), at0(rec("Pair", x)), "CurrentBatchId", "LastPrice"))
  loopin (keeper.Keeper).IterateAllPairs 0: every("Pair", x, ite(visited("Pair", x), rec("Pair", x).CurrentBatchId == at0(rec("Pair", x).CurrentBatchId) + 1, rec("Pair", x) == at0(rec("Pair", x))))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", p, i, has("Order", p, i) == at0(has("Order", p, i)) && keptord(rec("Order", p, i), at0(rec("Order", p, i))))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", p, i, imp(!live(at0(rec("Order", p, i).Status)), rec("Order", p, i) == at0(rec("Order", p, i))))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", p, i, imp(has("Order", p, i), known(rec("Order", p, i).Status)))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", p, i, imp(!visited("Order", p, i), rec("Order", p, i) == old(rec("Order", p, i))))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", p, i, imp(has("Order", p, i) && live(rec("Order", p, i).Status) && visited("Order", p, i), !due(rec("Order", p, i)) && !small(rec("Order", p, i))))
  loopin (keeper.Keeper).IterateAllOrders 0: every("Order", p, i, imp(has("Order", p, i), rec("Order", p, i).Status != types.OrderStatusNotExecuted))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: every("Pool", x, has("Pool", x) == at0(has("Pool", x)) && sameexcept(rec("Pool", x), at0(rec("Pool", x)), "Disabled"))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: every("DepositRequest", p, i, ite(visited("DepositRequest", p, i) && waiting(at0(rec("DepositRequest", p, i))), settled(rec("DepositRequest", p, i).Status), rec("DepositRequest", p, i) == at0(rec("DepositRequest", p, i))))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: every("Pool", x, has("Pool", x) == at0(has("Pool", x)) && sameexcept(rec("Pool", x), at0(rec("Pool", x)), "Disabled"))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: every("WithdrawRequest", p, i, ite(visited("WithdrawRequest", p, i) && waiting(at0(rec("WithdrawRequest", p, i))), settled(rec("WithdrawRequest", p, i).Status), rec("WithdrawRequest", p, i) == at0(rec("WithdrawRequest", p, i))))
  ensures expired: every("Order", p, i, imp(has("Order", p, i) && live(rec("Order", p, i).Status), !due(rec("Order", p, i))))
  ensures small: every("Order", p, i, imp(has("Order", p, i) && live(rec("Order", p, i).Status), !small(rec("Order", p, i))))
  ensures matched: every("Order", p, i, imp(has("Order", p, i), rec("Order", p, i).Status != types.OrderStatusNotExecuted))
  ensures kept: every("Order", p, i, has("Order", p, i) == old(has("Order", p, i)) && keptord(rec("Order", p, i), old(rec("Order", p, i))))
  ensures dead: every("Order", p, i, imp(!live(old(rec("Order", p, i).Status)), rec("Order", p, i) == old(rec("Order", p, i))))
  ensures deposits: every("DepositRequest", p, i, imp(has("DepositRequest", p, i), !waiting(rec("DepositRequest", p, i))))
  ensures withdraws: every("WithdrawRequest", p, i, imp(has("WithdrawRequest", p, i), !waiting(rec("WithdrawRequest", p, i))))
  ensures batch: every("Pair", x, imp(has("Pair", x), rec("Pair", x).CurrentBatchId == old(rec("Pair", x).CurrentBatchId) + 1))
  ensures cover1: true
