property C12
# Collecting a family: each element is a record of the store under the
# element's own key, no two elements have the same key, and there are as many
# elements as records, so every record is among them.
define okpair(x) = imp(has("Pair", x), rec("Pair", x).Id == part("Pair", x, 0))
define okpool(x) = imp(has("Pool", x), rec("Pool", x).Id == part("Pool", x, 0))
define okdep(x) = imp(has("DepositRequest", x), rec("DepositRequest", x).PoolId == part("DepositRequest", x, 0) && rec("DepositRequest", x).Id == part("DepositRequest", x, 1))
define okwit(x) = imp(has("WithdrawRequest", x), rec("WithdrawRequest", x).PoolId == part("WithdrawRequest", x, 0) && rec("WithdrawRequest", x).Id == part("WithdrawRequest", x, 1))
define okord(x) = imp(has("Order", x), rec("Order", x).PairId == part("Order", x, 0) && rec("Order", x).Id == part("Order", x, 1))

func (keeper.Keeper).GetAllPairs as getAllPairs
  modular
  option scoped
  params k ctx
  results pairs
  requires every("Pair", x, okpair(x))
  loopin (keeper.Keeper).IterateAllPairs 0: all(i, 0, len(pairs), visited("Pair", kvref("Pair", pairs[i].Id)) && pairs[i] == rec("Pair", kvref("Pair", pairs[i].Id)))
  loopin (keeper.Keeper).IterateAllPairs 0: all(i, 0, len(pairs), all(j, 0, i, (pairs[i].Id != pairs[j].Id)))
  loopin (keeper.Keeper).IterateAllPairs 0: len(pairs) == cnt(x, visitedset("Pair"), true)
  ensures records: all(i, 0, len(pairs), has("Pair", pairs[i].Id) && pairs[i] == rec("Pair", pairs[i].Id))
  ensures distinct: all(i, 0, len(pairs), all(j, 0, i, (pairs[i].Id != pairs[j].Id)))
  ensures count: len(pairs) == cnt(x, keys("Pair"), true)
  ensures pure: onlychanges()
  ensures cover1: len(pairs) > 1

func (keeper.Keeper).GetAllPools as getAllPools
  modular
  option scoped
  params k ctx
  results pools
  requires every("Pool", x, okpool(x))
  loopin (keeper.Keeper).IterateAllPools 0: all(i, 0, len(pools), visited("Pool", kvref("Pool", pools[i].Id)) && pools[i] == rec("Pool", kvref("Pool", pools[i].Id)))
  loopin (keeper.Keeper).IterateAllPools 0: all(i, 0, len(pools), all(j, 0, i, (pools[i].Id != pools[j].Id)))
  loopin (keeper.Keeper).IterateAllPools 0: len(pools) == cnt(x, visitedset("Pool"), true)
  ensures records: all(i, 0, len(pools), has("Pool", pools[i].Id) && pools[i] == rec("Pool", pools[i].Id))
  ensures distinct: all(i, 0, len(pools), all(j, 0, i, (pools[i].Id != pools[j].Id)))
  ensures count: len(pools) == cnt(x, keys("Pool"), true)
  ensures pure: onlychanges()
  ensures cover1: len(pools) > 1

func (keeper.Keeper).GetAllDepositRequests as getAllDepositRequests
  modular
  option scoped
  params k ctx
  results reqs
  requires every("DepositRequest", x, okdep(x))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: all(i, 0, len(reqs), visited("DepositRequest", kvref("DepositRequest", reqs[i].PoolId, reqs[i].Id)) && reqs[i] == rec("DepositRequest", kvref("DepositRequest", reqs[i].PoolId, reqs[i].Id)))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: all(i, 0, len(reqs), all(j, 0, i, (reqs[i].PoolId != reqs[j].PoolId || reqs[i].Id != reqs[j].Id)))
  loopin (keeper.Keeper).IterateAllDepositRequests 0: len(reqs) == cnt(x, visitedset("DepositRequest"), true)
  ensures records: all(i, 0, len(reqs), has("DepositRequest", reqs[i].PoolId, reqs[i].Id) && reqs[i] == rec("DepositRequest", reqs[i].PoolId, reqs[i].Id))
  ensures distinct: all(i, 0, len(reqs), all(j, 0, i, (reqs[i].PoolId != reqs[j].PoolId || reqs[i].Id != reqs[j].Id)))
  ensures count: len(reqs) == cnt(x, keys("DepositRequest"), true)
  ensures pure: onlychanges()
  ensures cover1: len(reqs) > 1

func (keeper.Keeper).GetAllWithdrawRequests as getAllWithdrawRequests
  modular
  option scoped
  params k ctx
  results reqs
  requires every("WithdrawRequest", x, okwit(x))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: all(i, 0, len(reqs), visited("WithdrawRequest", kvref("WithdrawRequest", reqs[i].PoolId, reqs[i].Id)) && reqs[i] == rec("WithdrawRequest", kvref("WithdrawRequest", reqs[i].PoolId, reqs[i].Id)))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: all(i, 0, len(reqs), all(j, 0, i, (reqs[i].PoolId != reqs[j].PoolId || reqs[i].Id != reqs[j].Id)))
  loopin (keeper.Keeper).IterateAllWithdrawRequests 0: len(reqs) == cnt(x, visitedset("WithdrawRequest"), true)
  ensures records: all(i, 0, len(reqs), has("WithdrawRequest", reqs[i].PoolId, reqs[i].Id) && reqs[i] == rec("WithdrawRequest", reqs[i].PoolId, reqs[i].Id))
  ensures distinct: all(i, 0, len(reqs), all(j, 0, i, (reqs[i].PoolId != reqs[j].PoolId || reqs[i].Id != reqs[j].Id)))
  ensures count: len(reqs) == cnt(x, keys("WithdrawRequest"), true)
  ensures pure: onlychanges()
  ensures cover1: len(reqs) > 1

func (keeper.Keeper).GetAllOrders as getAllOrders
  modular
  option scoped
  params k ctx
  results orders
  requires every("Order", x, okord(x))
  loopin (keeper.Keeper).IterateAllOrders 0: all(i, 0, len(orders), visited("Order", kvref("Order", orders[i].PairId, orders[i].Id)) && orders[i] == rec("Order", kvref("Order", orders[i].PairId, orders[i].Id)))
  loopin (keeper.Keeper).IterateAllOrders 0: all(i, 0, len(orders), all(j, 0, i, (orders[i].PairId != orders[j].PairId || orders[i].Id != orders[j].Id)))
  loopin (keeper.Keeper).IterateAllOrders 0: len(orders) == cnt(x, visitedset("Order"), true)
  ensures records: all(i, 0, len(orders), has("Order", orders[i].PairId, orders[i].Id) && orders[i] == rec("Order", orders[i].PairId, orders[i].Id))
  ensures distinct: all(i, 0, len(orders), all(j, 0, i, (orders[i].PairId != orders[j].PairId || orders[i].Id != orders[j].Id)))
  ensures count: len(orders) == cnt(x, keys("Order"), true)
  ensures pure: onlychanges()
  ensures cover1: len(orders) > 1

func (keeper.Keeper).ExportGenesis as exportGenesis
  params k ctx
  results g
  using getAllPairs getAllPools getAllDepositRequests getAllWithdrawRequests getAllOrders
  requires every("Pair", x, okpair(x))
  requires every("Pool", x, okpool(x))
  requires every("DepositRequest", x, okdep(x))
  requires every("WithdrawRequest", x, okwit(x))
  requires every("Order", x, okord(x))
  loopin (keeper.Keeper).IterateAllNumMMOrders 0: all(i, 0, len(numMMOrdersRecords), visited("NumMM", kvref("NumMM", addr(numMMOrdersRecords[i].Orderer), numMMOrdersRecords[i].PairId)) && numMMOrdersRecords[i].NumMarketMakingOrders == rec("NumMM", addr(numMMOrdersRecords[i].Orderer), numMMOrdersRecords[i].PairId))
  loopin (keeper.Keeper).IterateAllNumMMOrders 0: all(i, 0, len(numMMOrdersRecords), all(j, 0, i, numMMOrdersRecords[i].Orderer != numMMOrdersRecords[j].Orderer || numMMOrdersRecords[i].PairId != numMMOrdersRecords[j].PairId))
  loopin (keeper.Keeper).IterateAllNumMMOrders 0: len(numMMOrdersRecords) == cnt(x, visitedset("NumMM"), true)
  requires every("NumMM", x, imp(has("NumMM", x), rec("NumMM", x) < 4294967296))
  ensures counters: g.LastPairId == ite(has("LastPairId"), rec("LastPairId").Value, 0) && g.LastPoolId == ite(has("LastPoolId"), rec("LastPoolId").Value, 0)
  ensures params: g.Params.BatchSize == param("BatchSize") && g.Params.TickPrecision == param("TickPrecision") && g.Params.FeeCollectorAddress == param("FeeCollectorAddress") && g.Params.DustCollectorAddress == param("DustCollectorAddress") && g.Params.MinInitialPoolCoinSupply == param("MinInitialPoolCoinSupply") && g.Params.PairCreationFee == param("PairCreationFee") && g.Params.PoolCreationFee == param("PoolCreationFee") && g.Params.MinInitialDepositAmount == param("MinInitialDepositAmount") && g.Params.MaxPriceLimitRatio == param("MaxPriceLimitRatio") && g.Params.MaxNumMarketMakingOrderTicks == param("MaxNumMarketMakingOrderTicks") && g.Params.MaxNumMarketMakingOrdersPerPair == param("MaxNumMarketMakingOrdersPerPair") && g.Params.MaxOrderLifespan == param("MaxOrderLifespan") && g.Params.SwapFeeRate == param("SwapFeeRate") && g.Params.WithdrawFeeRate == param("WithdrawFeeRate") && g.Params.DepositExtraGas == param("DepositExtraGas") && g.Params.WithdrawExtraGas == param("WithdrawExtraGas") && g.Params.OrderExtraGas == param("OrderExtraGas") && g.Params.MaxNumActivePoolsPerPair == param("MaxNumActivePoolsPerPair")
  ensures Pairs: all(i, 0, len(g.Pairs), has("Pair", g.Pairs[i].Id) && g.Pairs[i] == rec("Pair", g.Pairs[i].Id))
  ensures PairsDistinct: all(i, 0, len(g.Pairs), all(j, 0, i, (g.Pairs[i].Id != g.Pairs[j].Id)))
  ensures PairsAll: len(g.Pairs) == cnt(x, keys("Pair"), true)
  ensures Pools: all(i, 0, len(g.Pools), has("Pool", g.Pools[i].Id) && g.Pools[i] == rec("Pool", g.Pools[i].Id))
  ensures PoolsDistinct: all(i, 0, len(g.Pools), all(j, 0, i, (g.Pools[i].Id != g.Pools[j].Id)))
  ensures PoolsAll: len(g.Pools) == cnt(x, keys("Pool"), true)
  ensures DepositRequests: all(i, 0, len(g.DepositRequests), has("DepositRequest", g.DepositRequests[i].PoolId, g.DepositRequests[i].Id) && g.DepositRequests[i] == rec("DepositRequest", g.DepositRequests[i].PoolId, g.DepositRequests[i].Id))
  ensures DepositRequestsDistinct: all(i, 0, len(g.DepositRequests), all(j, 0, i, (g.DepositRequests[i].PoolId != g.DepositRequests[j].PoolId || g.DepositRequests[i].Id != g.DepositRequests[j].Id)))
  ensures DepositRequestsAll: len(g.DepositRequests) == cnt(x, keys("DepositRequest"), true)
  ensures WithdrawRequests: all(i, 0, len(g.WithdrawRequests), has("WithdrawRequest", g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id) && g.WithdrawRequests[i] == rec("WithdrawRequest", g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id))
  ensures WithdrawRequestsDistinct: all(i, 0, len(g.WithdrawRequests), all(j, 0, i, (g.WithdrawRequests[i].PoolId != g.WithdrawRequests[j].PoolId || g.WithdrawRequests[i].Id != g.WithdrawRequests[j].Id)))
  ensures WithdrawRequestsAll: len(g.WithdrawRequests) == cnt(x, keys("WithdrawRequest"), true)
  ensures Orders: all(i, 0, len(g.Orders), has("Order", g.Orders[i].PairId, g.Orders[i].Id) && g.Orders[i] == rec("Order", g.Orders[i].PairId, g.Orders[i].Id))
  ensures OrdersDistinct: all(i, 0, len(g.Orders), all(j, 0, i, (g.Orders[i].PairId != g.Orders[j].PairId || g.Orders[i].Id != g.Orders[j].Id)))
  ensures OrdersAll: len(g.Orders) == cnt(x, keys("Order"), true)
  ensures counts: all(i, 0, len(g.NumMarketMakingOrdersRecords), has("NumMM", addr(g.NumMarketMakingOrdersRecords[i].Orderer), g.NumMarketMakingOrdersRecords[i].PairId) && g.NumMarketMakingOrdersRecords[i].NumMarketMakingOrders == rec("NumMM", addr(g.NumMarketMakingOrdersRecords[i].Orderer), g.NumMarketMakingOrdersRecords[i].PairId))
  ensures countsDistinct: all(i, 0, len(g.NumMarketMakingOrdersRecords), all(j, 0, i, g.NumMarketMakingOrdersRecords[i].Orderer != g.NumMarketMakingOrdersRecords[j].Orderer || g.NumMarketMakingOrdersRecords[i].PairId != g.NumMarketMakingOrdersRecords[j].PairId))
  ensures countsAll: len(g.NumMarketMakingOrdersRecords) == cnt(x, keys("NumMM"), true)
  ensures pure: onlychanges()
  ensures cover1: true

# Validation: ids unique and not above the counters, references resolved,
# denominations and batch ids matching their pair.
define pairfine(p) = validdenom(p.BaseCoinDenom) && validdenom(p.QuoteCoinDenom) && validaddr(p.EscrowAddress)
define offerdenom(o, p) = o.OfferCoin.Denom == ite(o.Direction == types.OrderDirectionBuy, p.QuoteCoinDenom, p.BaseCoinDenom) && o.ReceivedCoin.Denom == ite(o.Direction == types.OrderDirectionBuy, p.BaseCoinDenom, p.QuoteCoinDenom)
define nopair(g, p) = all(k, 0, len(g.Pairs), g.Pairs[k].Id != p)
define nopool(g, p) = all(k, 0, len(g.Pools), g.Pools[k].Id != p)

func (types.DepositRequest).Validate as depValid
  modular
  option scoped
  params req
  results err
  ensures addr: imp(isnil(err), validaddr(req.Depositor))
  ensures pure: onlychanges()

func (types.WithdrawRequest).Validate as witValid
  modular
  option scoped
  params req
  results err
  ensures addr: imp(isnil(err), validaddr(req.Withdrawer))
  ensures pure: onlychanges()

func (types.Order).Validate as ordValid
  modular
  option scoped
  params o
  results err
  ensures addr: imp(isnil(err), validaddr(o.Orderer) && (o.Direction == types.OrderDirectionBuy || o.Direction == types.OrderDirectionSell))
  ensures pure: onlychanges()

func (types.Params).Validate as paramsValid
  modular
  option scoped
  params p
  results err
  ensures pure: onlychanges()

func (types.GenesisState).Validate as genesisValid
  modular
  option scoped
  params g
  results err
  modifies *map:
  using depValid witValid ordValid paramsValid
  forall p
  loop 0: all(i, 0, rangeindex+1, pairfine(g.Pairs[i]) && g.Pairs[i].Id <= g.LastPairId && inmap(pairMap, g.Pairs[i].Id) && pairMap[g.Pairs[i].Id] == g.Pairs[i])
  loop 0: all(i, 0, rangeindex+1, all(j, 0, i, g.Pairs[i].Id != g.Pairs[j].Id))
  loop 0: imp(all(i, 0, rangeindex+1, g.Pairs[i].Id != p), !inmap(pairMap, p))
  loop 1: all(i, 0, rangeindex+1, validaddr(g.Pools[i].ReserveAddress) && g.Pools[i].Id <= g.LastPoolId && inmap(pairMap, g.Pools[i].PairId) && inmap(poolMap, g.Pools[i].Id) && poolMap[g.Pools[i].Id] == g.Pools[i])
  loop 1: all(i, 0, rangeindex+1, all(j, 0, i, g.Pools[i].Id != g.Pools[j].Id))
  loop 1: imp(all(i, 0, rangeindex+1, g.Pools[i].Id != p), !inmap(poolMap, p))
  loop 2: all(i, 0, rangeindex+1, validaddr(g.DepositRequests[i].Depositor) && inmap(poolMap, g.DepositRequests[i].PoolId) && inmap(depositReqSet, g.DepositRequests[i].PoolId) && inmap(depositReqSet[g.DepositRequests[i].PoolId], g.DepositRequests[i].Id))
  loop 2: all(i, 0, rangeindex+1, all(j, 0, i, g.DepositRequests[i].PoolId != g.DepositRequests[j].PoolId || g.DepositRequests[i].Id != g.DepositRequests[j].Id))
  loop 2: all(i, 0, rangeindex+1, g.DepositRequests[i].MintedPoolCoin.Denom == poolMap[g.DepositRequests[i].PoolId].PoolCoinDenom)
  loop 4: all(i, 0, rangeindex+1, validaddr(g.WithdrawRequests[i].Withdrawer) && inmap(poolMap, g.WithdrawRequests[i].PoolId) && inmap(withdrawReqSet, g.WithdrawRequests[i].PoolId) && inmap(withdrawReqSet[g.WithdrawRequests[i].PoolId], g.WithdrawRequests[i].Id))
  loop 4: all(i, 0, rangeindex+1, all(j, 0, i, g.WithdrawRequests[i].PoolId != g.WithdrawRequests[j].PoolId || g.WithdrawRequests[i].Id != g.WithdrawRequests[j].Id))
  loop 4: all(i, 0, rangeindex+1, g.WithdrawRequests[i].PoolCoin.Denom == poolMap[g.WithdrawRequests[i].PoolId].PoolCoinDenom)
  loop 5: all(i, 0, rangeindex+1, validaddr(g.Orders[i].Orderer) && inmap(pairMap, g.Orders[i].PairId) && inmap(orderSet, g.Orders[i].PairId) && inmap(orderSet[g.Orders[i].PairId], g.Orders[i].Id))
  loop 5: all(i, 0, rangeindex+1, all(j, 0, i, g.Orders[i].PairId != g.Orders[j].PairId || g.Orders[i].Id != g.Orders[j].Id))
  loop 5: all(i, 0, rangeindex+1, g.Orders[i].BatchId <= pairMap[g.Orders[i].PairId].CurrentBatchId && offerdenom(g.Orders[i], pairMap[g.Orders[i].PairId]))
  loop 6: all(i, 0, rangeindex+1, g.NumMarketMakingOrdersRecords[i].NumMarketMakingOrders > 0)
  ensures pairs: imp(isnil(err), all(i, 0, len(g.Pairs), pairfine(g.Pairs[i]) && g.Pairs[i].Id <= g.LastPairId))
  ensures pairIds: imp(isnil(err), all(i, 0, len(g.Pairs), all(j, 0, i, g.Pairs[i].Id != g.Pairs[j].Id)))
  ensures pools: imp(isnil(err), all(i, 0, len(g.Pools), validaddr(g.Pools[i].ReserveAddress) && g.Pools[i].Id <= g.LastPoolId))
  ensures poolIds: imp(isnil(err), all(i, 0, len(g.Pools), all(j, 0, i, g.Pools[i].Id != g.Pools[j].Id)))
  ensures poolRefs: imp(isnil(err) && nopair(g, p), all(i, 0, len(g.Pools), g.Pools[i].PairId != p))
  ensures depositIds: imp(isnil(err), all(i, 0, len(g.DepositRequests), all(j, 0, i, g.DepositRequests[i].PoolId != g.DepositRequests[j].PoolId || g.DepositRequests[i].Id != g.DepositRequests[j].Id)))
  ensures depositRefs: imp(isnil(err) && nopool(g, p), all(i, 0, len(g.DepositRequests), g.DepositRequests[i].PoolId != p))
  ensures depositAddrs: imp(isnil(err), all(i, 0, len(g.DepositRequests), validaddr(g.DepositRequests[i].Depositor)))
  ensures depositDenoms: imp(isnil(err), all(i, 0, len(g.DepositRequests), all(k, 0, len(g.Pools), imp(g.Pools[k].Id == g.DepositRequests[i].PoolId, g.DepositRequests[i].MintedPoolCoin.Denom == g.Pools[k].PoolCoinDenom))))
  ensures withdrawIds: imp(isnil(err), all(i, 0, len(g.WithdrawRequests), all(j, 0, i, g.WithdrawRequests[i].PoolId != g.WithdrawRequests[j].PoolId || g.WithdrawRequests[i].Id != g.WithdrawRequests[j].Id)))
  ensures withdrawRefs: imp(isnil(err) && nopool(g, p), all(i, 0, len(g.WithdrawRequests), g.WithdrawRequests[i].PoolId != p))
  ensures withdrawAddrs: imp(isnil(err), all(i, 0, len(g.WithdrawRequests), validaddr(g.WithdrawRequests[i].Withdrawer)))
  ensures withdrawDenoms: imp(isnil(err), all(i, 0, len(g.WithdrawRequests), all(k, 0, len(g.Pools), imp(g.Pools[k].Id == g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].PoolCoin.Denom == g.Pools[k].PoolCoinDenom))))
  ensures orderIds: imp(isnil(err), all(i, 0, len(g.Orders), all(j, 0, i, g.Orders[i].PairId != g.Orders[j].PairId || g.Orders[i].Id != g.Orders[j].Id)))
  ensures orderRefs: imp(isnil(err) && nopair(g, p), all(i, 0, len(g.Orders), g.Orders[i].PairId != p))
  ensures orderAddrs: imp(isnil(err), all(i, 0, len(g.Orders), validaddr(g.Orders[i].Orderer)))
  ensures orderPair: imp(isnil(err), all(i, 0, len(g.Orders), all(k, 0, len(g.Pairs), imp(g.Pairs[k].Id == g.Orders[i].PairId, g.Orders[i].BatchId <= g.Pairs[k].CurrentBatchId && offerdenom(g.Orders[i], g.Pairs[k])))))
  ensures pure: onlychanges()
  ensures counts: imp(isnil(err), all(i, 0, len(g.NumMarketMakingOrdersRecords), g.NumMarketMakingOrdersRecords[i].NumMarketMakingOrders > 0))
  ensures cover1: isnil(err) && len(g.Orders) > 0
  ensures cover2: !isnil(err)

# Importing: the counters and parameters are those of the genesis, every record
# is stored under its own key with its index entries, and no other record appears.
func (keeper.Keeper).InitGenesis as initGenesis
  params k ctx g
  results
  using genesisValid
  forall p q
  requires all(i, 0, len(g.Pairs), all(j, 0, i, g.Pairs[i].BaseCoinDenom != g.Pairs[j].BaseCoinDenom || g.Pairs[i].QuoteCoinDenom != g.Pairs[j].QuoteCoinDenom))
  requires all(i, 0, len(g.Pools), all(j, 0, i, addr(g.Pools[i].ReserveAddress) != addr(g.Pools[j].ReserveAddress)))
  requires all(i, 0, len(g.NumMarketMakingOrdersRecords), all(j, 0, i, addr(g.NumMarketMakingOrdersRecords[i].Orderer) != addr(g.NumMarketMakingOrdersRecords[j].Orderer) || g.NumMarketMakingOrdersRecords[i].PairId != g.NumMarketMakingOrdersRecords[j].PairId))
  loop 0: all(i, 0, rangeindex+1, has("Pair", g.Pairs[i].Id) && rec("Pair", g.Pairs[i].Id) == g.Pairs[i])
  loop 0: all(i, 0, rangeindex+1, has("PairIndex", g.Pairs[i].BaseCoinDenom, g.Pairs[i].QuoteCoinDenom) && rec("PairIndex", g.Pairs[i].BaseCoinDenom, g.Pairs[i].QuoteCoinDenom).Value == g.Pairs[i].Id)
  loop 0: all(i, 0, rangeindex+1, has("PairsByDenoms", g.Pairs[i].BaseCoinDenom, g.Pairs[i].QuoteCoinDenom, g.Pairs[i].Id) && has("PairsByDenoms", g.Pairs[i].QuoteCoinDenom, g.Pairs[i].BaseCoinDenom, g.Pairs[i].Id))
  loop 0: imp(all(i, 0, rangeindex+1, g.Pairs[i].Id != q), has("Pair", q) == old(has("Pair", q)))
  loop 1: all(i, 0, rangeindex+1, has("Pool", g.Pools[i].Id) && rec("Pool", g.Pools[i].Id) == g.Pools[i])
  loop 1: all(i, 0, rangeindex+1, has("PoolByReserve", addr(g.Pools[i].ReserveAddress)) && rec("PoolByReserve", addr(g.Pools[i].ReserveAddress)).Value == g.Pools[i].Id)
  loop 1: all(i, 0, rangeindex+1, has("PoolsByPair", g.Pools[i].PairId, g.Pools[i].Id))
  loop 1: imp(all(i, 0, rangeindex+1, g.Pools[i].Id != q), has("Pool", q) == old(has("Pool", q)))
  loop 2: all(i, 0, rangeindex+1, has("DepositRequest", g.DepositRequests[i].PoolId, g.DepositRequests[i].Id) && rec("DepositRequest", g.DepositRequests[i].PoolId, g.DepositRequests[i].Id) == g.DepositRequests[i])
  loop 2: all(i, 0, rangeindex+1, has("DepositIndex", addr(g.DepositRequests[i].Depositor), g.DepositRequests[i].PoolId, g.DepositRequests[i].Id))
  loop 2: imp(all(i, 0, rangeindex+1, g.DepositRequests[i].PoolId != p || g.DepositRequests[i].Id != q), has("DepositRequest", p, q) == old(has("DepositRequest", p, q)))
  loop 3: all(i, 0, rangeindex+1, has("WithdrawRequest", g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id) && rec("WithdrawRequest", g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id) == g.WithdrawRequests[i])
  loop 3: all(i, 0, rangeindex+1, has("WithdrawIndex", addr(g.WithdrawRequests[i].Withdrawer), g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id))
  loop 3: imp(all(i, 0, rangeindex+1, g.WithdrawRequests[i].PoolId != p || g.WithdrawRequests[i].Id != q), has("WithdrawRequest", p, q) == old(has("WithdrawRequest", p, q)))
  loop 4: all(i, 0, rangeindex+1, has("Order", g.Orders[i].PairId, g.Orders[i].Id) && rec("Order", g.Orders[i].PairId, g.Orders[i].Id) == g.Orders[i])
  loop 4: all(i, 0, rangeindex+1, has("OrderIndex", addr(g.Orders[i].Orderer), g.Orders[i].PairId, g.Orders[i].Id))
  loop 4: imp(all(i, 0, rangeindex+1, g.Orders[i].PairId != p || g.Orders[i].Id != q), has("Order", p, q) == old(has("Order", p, q)))
  loop 5: all(i, 0, rangeindex+1, has("NumMM", addr(g.NumMarketMakingOrdersRecords[i].Orderer), g.NumMarketMakingOrdersRecords[i].PairId) && rec("NumMM", addr(g.NumMarketMakingOrdersRecords[i].Orderer), g.NumMarketMakingOrdersRecords[i].PairId) == g.NumMarketMakingOrdersRecords[i].NumMarketMakingOrders)
  ensures counters: has("LastPairId") && has("LastPoolId") && rec("LastPairId").Value == g.LastPairId && rec("LastPoolId").Value == g.LastPoolId
  ensures params: param("BatchSize") == g.Params.BatchSize && param("TickPrecision") == g.Params.TickPrecision && param("FeeCollectorAddress") == g.Params.FeeCollectorAddress && param("DustCollectorAddress") == g.Params.DustCollectorAddress && param("MinInitialPoolCoinSupply") == g.Params.MinInitialPoolCoinSupply && param("PairCreationFee") == g.Params.PairCreationFee && param("PoolCreationFee") == g.Params.PoolCreationFee && param("MinInitialDepositAmount") == g.Params.MinInitialDepositAmount && param("MaxPriceLimitRatio") == g.Params.MaxPriceLimitRatio && param("MaxNumMarketMakingOrderTicks") == g.Params.MaxNumMarketMakingOrderTicks && param("MaxNumMarketMakingOrdersPerPair") == g.Params.MaxNumMarketMakingOrdersPerPair && param("MaxOrderLifespan") == g.Params.MaxOrderLifespan && param("SwapFeeRate") == g.Params.SwapFeeRate && param("WithdrawFeeRate") == g.Params.WithdrawFeeRate && param("DepositExtraGas") == g.Params.DepositExtraGas && param("WithdrawExtraGas") == g.Params.WithdrawExtraGas && param("OrderExtraGas") == g.Params.OrderExtraGas && param("MaxNumActivePoolsPerPair") == g.Params.MaxNumActivePoolsPerPair
  ensures pairs: all(i, 0, len(g.Pairs), has("Pair", g.Pairs[i].Id) && rec("Pair", g.Pairs[i].Id) == g.Pairs[i])
  ensures pairIndex: all(i, 0, len(g.Pairs), has("PairIndex", g.Pairs[i].BaseCoinDenom, g.Pairs[i].QuoteCoinDenom) && rec("PairIndex", g.Pairs[i].BaseCoinDenom, g.Pairs[i].QuoteCoinDenom).Value == g.Pairs[i].Id)
  ensures pairLookup: all(i, 0, len(g.Pairs), has("PairsByDenoms", g.Pairs[i].BaseCoinDenom, g.Pairs[i].QuoteCoinDenom, g.Pairs[i].Id) && has("PairsByDenoms", g.Pairs[i].QuoteCoinDenom, g.Pairs[i].BaseCoinDenom, g.Pairs[i].Id))
  ensures pairOthers: imp(all(i, 0, len(g.Pairs), g.Pairs[i].Id != q), has("Pair", q) == old(has("Pair", q)))
  ensures pools: all(i, 0, len(g.Pools), has("Pool", g.Pools[i].Id) && rec("Pool", g.Pools[i].Id) == g.Pools[i])
  ensures poolReserve: all(i, 0, len(g.Pools), has("PoolByReserve", addr(g.Pools[i].ReserveAddress)) && rec("PoolByReserve", addr(g.Pools[i].ReserveAddress)).Value == g.Pools[i].Id)
  ensures poolByPair: all(i, 0, len(g.Pools), has("PoolsByPair", g.Pools[i].PairId, g.Pools[i].Id))
  ensures poolOthers: imp(all(i, 0, len(g.Pools), g.Pools[i].Id != q), has("Pool", q) == old(has("Pool", q)))
  ensures deposits: all(i, 0, len(g.DepositRequests), has("DepositRequest", g.DepositRequests[i].PoolId, g.DepositRequests[i].Id) && rec("DepositRequest", g.DepositRequests[i].PoolId, g.DepositRequests[i].Id) == g.DepositRequests[i])
  ensures depositIndex: all(i, 0, len(g.DepositRequests), has("DepositIndex", addr(g.DepositRequests[i].Depositor), g.DepositRequests[i].PoolId, g.DepositRequests[i].Id))
  ensures depositOthers: imp(all(i, 0, len(g.DepositRequests), g.DepositRequests[i].PoolId != p || g.DepositRequests[i].Id != q), has("DepositRequest", p, q) == old(has("DepositRequest", p, q)))
  ensures withdraws: all(i, 0, len(g.WithdrawRequests), has("WithdrawRequest", g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id) && rec("WithdrawRequest", g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id) == g.WithdrawRequests[i])
  ensures withdrawIndex: all(i, 0, len(g.WithdrawRequests), has("WithdrawIndex", addr(g.WithdrawRequests[i].Withdrawer), g.WithdrawRequests[i].PoolId, g.WithdrawRequests[i].Id))
  ensures withdrawOthers: imp(all(i, 0, len(g.WithdrawRequests), g.WithdrawRequests[i].PoolId != p || g.WithdrawRequests[i].Id != q), has("WithdrawRequest", p, q) == old(has("WithdrawRequest", p, q)))
  ensures orders: all(i, 0, len(g.Orders), has("Order", g.Orders[i].PairId, g.Orders[i].Id) && rec("Order", g.Orders[i].PairId, g.Orders[i].Id) == g.Orders[i])
  ensures orderIndex: all(i, 0, len(g.Orders), has("OrderIndex", addr(g.Orders[i].Orderer), g.Orders[i].PairId, g.Orders[i].Id))
  ensures orderOthers: imp(all(i, 0, len(g.Orders), g.Orders[i].PairId != p || g.Orders[i].Id != q), has("Order", p, q) == old(has("Order", p, q)))
  ensures counts: all(i, 0, len(g.NumMarketMakingOrdersRecords), has("NumMM", addr(g.NumMarketMakingOrdersRecords[i].Orderer), g.NumMarketMakingOrdersRecords[i].PairId) && rec("NumMM", addr(g.NumMarketMakingOrdersRecords[i].Orderer), g.NumMarketMakingOrdersRecords[i].PairId) == g.NumMarketMakingOrdersRecords[i].NumMarketMakingOrders)
  ensures balances: unchanged("$bal") && unchanged("$supply")
  ensures cover1: len(g.Pairs) > 1 && len(g.Orders) > 1
