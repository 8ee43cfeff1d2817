property C22
# has("F", key...)/rec("F", key...): the record of family F stored under the key.
# others("F", key...): every other record of the family is as before.
# onlychanges(parts...): nothing else of the module's state, no balance and no supply changed.

define apair(d1, d2) = validdenom(d1) && validdenom(d2)

func (keeper.Keeper).SetPair as setPair
  params k ctx pair
  results
  ensures stored: has("Pair", pair.Id) && rec("Pair", pair.Id) == pair
  ensures others: others("Pair", pair.Id)
  ensures only: onlychanges("kv.Pair#", "kv.Pair.")

func (keeper.Keeper).GetPair as getPair
  params k ctx id
  results pair found
  ensures found: found == has("Pair", id)
  ensures read: imp(found, pair == rec("Pair", id))
  ensures pure: onlychanges()

func (keeper.Keeper).DeletePair as delPair
  params k ctx id
  results
  ensures gone: !has("Pair", id)
  ensures others: others("Pair", id)
  ensures only: onlychanges("kv.Pair#", "kv.Pair.")

func (keeper.Keeper).SetLastPairId as setLastPairId
  params k ctx id
  results
  ensures stored: has("LastPairId") && rec("LastPairId").Value == id
  ensures only: onlychanges("kv.LastPairId")

func (keeper.Keeper).GetLastPairId as getLastPairId
  params k ctx
  results id
  ensures read: id == ite(has("LastPairId"), rec("LastPairId").Value, 0)
  ensures pure: onlychanges()

func (keeper.Keeper).DeleteLastPairId as delLastPairId
  params k ctx
  results
  ensures gone: !has("LastPairId")
  ensures only: onlychanges("kv.LastPairId")

func (keeper.Keeper).SetLastPoolId as setLastPoolId
  params k ctx id
  results
  ensures stored: has("LastPoolId") && rec("LastPoolId").Value == id
  ensures only: onlychanges("kv.LastPoolId")

func (keeper.Keeper).GetLastPoolId as getLastPoolId
  params k ctx
  results id
  ensures read: id == ite(has("LastPoolId"), rec("LastPoolId").Value, 0)
  ensures pure: onlychanges()

func (keeper.Keeper).DeleteLastPoolId as delLastPoolId
  params k ctx
  results
  ensures gone: !has("LastPoolId")
  ensures only: onlychanges("kv.LastPoolId")

func (keeper.Keeper).SetPairIndex as setPairIndex
  params k ctx b q id
  results
  requires apair(b, q)
  ensures stored: has("PairIndex", b, q) && rec("PairIndex", b, q).Value == id
  ensures others: others("PairIndex", b, q)
  ensures only: onlychanges("kv.PairIndex")

func (keeper.Keeper).DeletePairIndex as delPairIndex
  params k ctx b q
  results
  requires apair(b, q)
  ensures gone: !has("PairIndex", b, q)
  ensures others: others("PairIndex", b, q)
  ensures only: onlychanges("kv.PairIndex")

func (keeper.Keeper).GetPairByDenoms as getPairByDenoms
  params k ctx b q
  results pair found
  requires apair(b, q)
  ensures found: found == (has("PairIndex", b, q) && has("Pair", rec("PairIndex", b, q).Value))
  ensures read: imp(found, pair == rec("Pair", rec("PairIndex", b, q).Value))
  ensures pure: onlychanges()

func (keeper.Keeper).SetPairLookupIndex as setPairLookup
  params k ctx a b id
  results
  requires apair(a, b)
  ensures stored: has("PairsByDenoms", a, b, id)
  ensures others: others("PairsByDenoms", a, b, id)
  ensures only: onlychanges("kv.PairsByDenoms")

func (keeper.Keeper).DeletePairLookupIndex as delPairLookup
  params k ctx p
  results
  requires apair(p.BaseCoinDenom, p.QuoteCoinDenom)
  ensures gone: !has("PairsByDenoms", p.BaseCoinDenom, p.QuoteCoinDenom, p.Id) && !has("PairsByDenoms", p.QuoteCoinDenom, p.BaseCoinDenom, p.Id)
  ensures others: every("PairsByDenoms", x, x == kvref("PairsByDenoms", p.BaseCoinDenom, p.QuoteCoinDenom, p.Id) || x == kvref("PairsByDenoms", p.QuoteCoinDenom, p.BaseCoinDenom, p.Id) || has("PairsByDenoms", x) == old(has("PairsByDenoms", x)))
  ensures only: onlychanges("kv.PairsByDenoms")

func (keeper.Keeper).SetPool as setPool
  params k ctx pool
  results
  ensures stored: has("Pool", pool.Id) && rec("Pool", pool.Id) == pool
  ensures others: others("Pool", pool.Id)
  ensures only: onlychanges("kv.Pool#", "kv.Pool.")

func (keeper.Keeper).GetPool as getPool
  params k ctx id
  results pool found
  ensures found: found == has("Pool", id)
  ensures read: imp(found, pool == rec("Pool", id))
  ensures pure: onlychanges()

func (keeper.Keeper).DeletePool as delPool
  params k ctx id
  results
  ensures gone: !has("Pool", id)
  ensures others: others("Pool", id)
  ensures only: onlychanges("kv.Pool#", "kv.Pool.")

func (keeper.Keeper).GetPoolByReserveAddress as getPoolByReserve
  params k ctx a
  results pool found
  requires len(a) > 0 && len(a) <= 255
  ensures found: found == (has("PoolByReserve", a) && has("Pool", rec("PoolByReserve", a).Value))
  ensures read: imp(found, pool == rec("Pool", rec("PoolByReserve", a).Value))
  ensures pure: onlychanges()

func (keeper.Keeper).SetPoolByReserveIndex as setPoolByReserve
  params k ctx pool
  results
  requires validaddr(pool.ReserveAddress)
  ensures stored: has("PoolByReserve", addr(pool.ReserveAddress)) && rec("PoolByReserve", addr(pool.ReserveAddress)).Value == pool.Id
  ensures others: others("PoolByReserve", addr(pool.ReserveAddress))
  ensures only: onlychanges("kv.PoolByReserve")

func (keeper.Keeper).DeletePoolByReserveIndex as delPoolByReserve
  params k ctx pool
  results
  requires validaddr(pool.ReserveAddress)
  ensures gone: !has("PoolByReserve", addr(pool.ReserveAddress))
  ensures others: others("PoolByReserve", addr(pool.ReserveAddress))
  ensures only: onlychanges("kv.PoolByReserve")

func (keeper.Keeper).SetPoolsByPairIndex as setPoolsByPair
  params k ctx pool
  results
  ensures stored: has("PoolsByPair", pool.PairId, pool.Id)
  ensures others: others("PoolsByPair", pool.PairId, pool.Id)
  ensures only: onlychanges("kv.PoolsByPair")

func (keeper.Keeper).DeletePoolsByPairIndex as delPoolsByPair
  params k ctx pool
  results
  ensures gone: !has("PoolsByPair", pool.PairId, pool.Id)
  ensures others: others("PoolsByPair", pool.PairId, pool.Id)
  ensures only: onlychanges("kv.PoolsByPair")

func (keeper.Keeper).SetDepositRequest as setDeposit
  params k ctx req
  results
  ensures stored: has("DepositRequest", req.PoolId, req.Id) && rec("DepositRequest", req.PoolId, req.Id) == req
  ensures others: others("DepositRequest", req.PoolId, req.Id)
  ensures only: onlychanges("kv.DepositRequest")

func (keeper.Keeper).GetDepositRequest as getDeposit
  params k ctx p id
  results req found
  ensures found: found == has("DepositRequest", p, id)
  ensures read: imp(found, req == rec("DepositRequest", p, id))
  ensures pure: onlychanges()

func (keeper.Keeper).SetDepositRequestIndex as setDepositIndex
  params k ctx req
  results
  requires validaddr(req.Depositor)
  ensures stored: has("DepositIndex", addr(req.Depositor), req.PoolId, req.Id)
  ensures others: others("DepositIndex", addr(req.Depositor), req.PoolId, req.Id)
  ensures only: onlychanges("kv.DepositIndex")

func (keeper.Keeper).DeleteDepositRequest as delDeposit
  params k ctx req
  results
  requires validaddr(req.Depositor)
  ensures gone: !has("DepositRequest", req.PoolId, req.Id) && !has("DepositIndex", addr(req.Depositor), req.PoolId, req.Id)
  ensures others: others("DepositRequest", req.PoolId, req.Id) && others("DepositIndex", addr(req.Depositor), req.PoolId, req.Id)
  ensures only: onlychanges("kv.DepositRequest", "kv.DepositIndex")

func (keeper.Keeper).SetWithdrawRequest as setWithdraw
  params k ctx req
  results
  ensures stored: has("WithdrawRequest", req.PoolId, req.Id) && rec("WithdrawRequest", req.PoolId, req.Id) == req
  ensures others: others("WithdrawRequest", req.PoolId, req.Id)
  ensures only: onlychanges("kv.WithdrawRequest")

func (keeper.Keeper).GetWithdrawRequest as getWithdraw
  params k ctx p id
  results req found
  ensures found: found == has("WithdrawRequest", p, id)
  ensures read: imp(found, req == rec("WithdrawRequest", p, id))
  ensures pure: onlychanges()

func (keeper.Keeper).SetWithdrawRequestIndex as setWithdrawIndex
  params k ctx req
  results
  requires validaddr(req.Withdrawer)
  ensures stored: has("WithdrawIndex", addr(req.Withdrawer), req.PoolId, req.Id)
  ensures others: others("WithdrawIndex", addr(req.Withdrawer), req.PoolId, req.Id)
  ensures only: onlychanges("kv.WithdrawIndex")

func (keeper.Keeper).DeleteWithdrawRequest as delWithdraw
  params k ctx req
  results
  requires validaddr(req.Withdrawer)
  ensures gone: !has("WithdrawRequest", req.PoolId, req.Id) && !has("WithdrawIndex", addr(req.Withdrawer), req.PoolId, req.Id)
  ensures others: others("WithdrawRequest", req.PoolId, req.Id) && others("WithdrawIndex", addr(req.Withdrawer), req.PoolId, req.Id)
  ensures only: onlychanges("kv.WithdrawRequest", "kv.WithdrawIndex")

func (keeper.Keeper).SetOrder as setOrder
  params k ctx o
  results
  ensures stored: has("Order", o.PairId, o.Id) && rec("Order", o.PairId, o.Id) == o
  ensures others: others("Order", o.PairId, o.Id)
  ensures only: onlychanges("kv.Order#", "kv.Order.")

func (keeper.Keeper).GetOrder as getOrder
  params k ctx p id
  results o found
  ensures found: found == has("Order", p, id)
  ensures read: imp(found, o == rec("Order", p, id))
  ensures pure: onlychanges()

func (keeper.Keeper).SetOrderIndex as setOrderIndex
  params k ctx o
  results
  requires validaddr(o.Orderer)
  ensures stored: has("OrderIndex", addr(o.Orderer), o.PairId, o.Id)
  ensures others: others("OrderIndex", addr(o.Orderer), o.PairId, o.Id)
  ensures only: onlychanges("kv.OrderIndex")

func (keeper.Keeper).DeleteOrder as delOrder
  params k ctx o
  results
  requires validaddr(o.Orderer)
  ensures gone: !has("Order", o.PairId, o.Id) && !has("OrderIndex", addr(o.Orderer), o.PairId, o.Id)
  ensures others: others("Order", o.PairId, o.Id) && others("OrderIndex", addr(o.Orderer), o.PairId, o.Id)
  ensures only: onlychanges("kv.Order#", "kv.Order.", "kv.OrderIndex#")

func (keeper.Keeper).GetNumMMOrders as getNumMM
  params k ctx a p
  results n
  requires len(a) > 0 && len(a) <= 255
  requires imp(has("NumMM", a, p), rec("NumMM", a, p) < 4294967296)
  ensures read: n == ite(has("NumMM", a, p), rec("NumMM", a, p), 0)
  ensures pure: onlychanges()

func (keeper.Keeper).SetNumMMOrders as setNumMM
  params k ctx a p n
  results
  requires len(a) > 0 && len(a) <= 255
  ensures stored: has("NumMM", a, p) && rec("NumMM", a, p) == n
  ensures others: others("NumMM", a, p)
  ensures only: onlychanges("kv.NumMM")

func (keeper.Keeper).DeleteNumMMOrders as delNumMM
  params k ctx a p
  results
  requires len(a) > 0 && len(a) <= 255
  ensures gone: !has("NumMM", a, p)
  ensures others: others("NumMM", a, p)
  ensures only: onlychanges("kv.NumMM")
