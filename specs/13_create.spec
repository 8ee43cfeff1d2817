property C15

define lastPair() = ite(has("LastPairId"), rec("LastPairId").Value, 0)
define lastPool() = ite(has("LastPoolId"), rec("LastPoolId").Value, 0)
define collector() = addr(param("FeeCollectorAddress"))
define active(x) = !rec("Pool", part("PoolsByPair", x, 1)).Disabled
define basic(x) = has("Pool", part("PoolsByPair", x, 1)) && rec("Pool", part("PoolsByPair", x, 1)).Type == types.PoolTypeBasic
define nactive(p) = cnt(x, keys("PoolsByPair", p), !has("Pool", part("PoolsByPair", x, 1)) || active(x))

func (keeper.Keeper).CreatePair as createPair
  params k ctx msg
  results pair err
  requires validdenom(msg.BaseCoinDenom) && validdenom(msg.QuoteCoinDenom) && validaddr(msg.Creator) && validaddr(param("FeeCollectorAddress"))
  ensures id: imp(isnil(err), pair.Id == old(lastPair()) + 1 && lastPair() == pair.Id)
  ensures fields: imp(isnil(err), pair.BaseCoinDenom == msg.BaseCoinDenom && pair.QuoteCoinDenom == msg.QuoteCoinDenom && pair.CurrentBatchId == 1 && pair.LastOrderId == 0 && isnil(pair.LastPrice))
  ensures stored: imp(isnil(err), has("Pair", pair.Id) && rec("Pair", pair.Id) == pair && others("Pair", pair.Id))
  ensures index: imp(isnil(err), has("PairIndex", pair.BaseCoinDenom, pair.QuoteCoinDenom) && rec("PairIndex", pair.BaseCoinDenom, pair.QuoteCoinDenom).Value == pair.Id && others("PairIndex", pair.BaseCoinDenom, pair.QuoteCoinDenom))
  ensures lookup: imp(isnil(err), has("PairsByDenoms", pair.BaseCoinDenom, pair.QuoteCoinDenom, pair.Id) && has("PairsByDenoms", pair.QuoteCoinDenom, pair.BaseCoinDenom, pair.Id))
  ensures fee: imp(isnil(err), moves(addr(msg.Creator), collector(), param("PairCreationFee")))
  ensures refused: imp(old(has("PairIndex", msg.BaseCoinDenom, msg.QuoteCoinDenom) && has("Pair", rec("PairIndex", msg.BaseCoinDenom, msg.QuoteCoinDenom).Value)), !isnil(err))
  ensures failed: imp(!isnil(err), onlychanges())
  ensures only: onlychanges("kv.Pair#", "kv.Pair.", "kv.PairIndex", "kv.PairsByDenoms", "kv.LastPairId", "$bal")
  ensures cover1: isnil(err)

func (keeper.Keeper).ValidateMsgCreatePool as validateCreatePool
  params k ctx msg
  results err
  requires nactive(msg.PairId) < 4294967296
  requires imp(has("Pair", msg.PairId), rec("Pair", msg.PairId).Id == msg.PairId)
  ensures pair: imp(isnil(err), has("Pair", msg.PairId))
  ensures limit: imp(isnil(err), nactive(msg.PairId) < param("MaxNumActivePoolsPerPair"))
  ensures single: imp(isnil(err), every("PoolsByPair", x, imp(has("PoolsByPair", x) && part("PoolsByPair", x, 0) == msg.PairId, !(basic(x) && active(x)))))
  ensures pure: onlychanges()
  loopin (keeper.Keeper).IteratePoolsByPair 0: imp(!duplicate, every("PoolsByPair", x, imp(visited("PoolsByPair", x), !(basic(x) && active(x)))))
  loopin (keeper.Keeper).IteratePoolsByPair 0: imp(!duplicate, numActivePools == cnt(x, visitedset("PoolsByPair"), !has("Pool", part("PoolsByPair", x, 1)) || active(x)))
  ensures cover1: isnil(err)

func (keeper.Keeper).CreatePool as createPool
  params k ctx msg
  results pool err
  requires nactive(msg.PairId) < 4294967296
  requires validaddr(msg.Creator) && validaddr(param("FeeCollectorAddress"))
  requires imp(has("Pair", msg.PairId), rec("Pair", msg.PairId).Id == msg.PairId && validdenom(rec("Pair", msg.PairId).BaseCoinDenom) && validdenom(rec("Pair", msg.PairId).QuoteCoinDenom))
  ensures id: imp(isnil(err), pool.Id == old(lastPool()) + 1 && lastPool() == pool.Id)
  ensures fields: imp(isnil(err), pool.Type == types.PoolTypeBasic && pool.PairId == msg.PairId && !pool.Disabled && pool.LastDepositRequestId == 0 && pool.LastWithdrawRequestId == 0)
  ensures creator: imp(isnil(err), addr(pool.Creator) == addr(msg.Creator))
  ensures stored: imp(isnil(err), has("Pool", pool.Id) && rec("Pool", pool.Id) == pool && others("Pool", pool.Id))
  ensures index: imp(isnil(err), has("PoolByReserve", addr(pool.ReserveAddress)) && has("PoolsByPair", pool.PairId, pool.Id) && others("PoolsByPair", pool.PairId, pool.Id))
  ensures moved: imp(isnil(err), moves(addr(msg.Creator), addr(pool.ReserveAddress), msg.DepositCoins, addr(msg.Creator), collector(), param("PoolCreationFee"), nil, addr(msg.Creator), coin(pool.PoolCoinDenom, supply(pool.PoolCoinDenom) - old(supply(pool.PoolCoinDenom)))))
  ensures minted: imp(isnil(err), supply(pool.PoolCoinDenom) - old(supply(pool.PoolCoinDenom)) >= param("MinInitialPoolCoinSupply"))
  ensures cover1: isnil(err)
  ensures failed: imp(!isnil(err), onlychanges("kv.Pool#", "kv.Pool.", "kv.PoolByReserve", "kv.PoolsByPair", "kv.LastPoolId", "$bal", "$supply"))
  ensures only: onlychanges("kv.Pool#", "kv.Pool.", "kv.PoolByReserve", "kv.PoolsByPair", "kv.LastPoolId", "$bal", "$supply")

func amm.CreateRangedPool as createRangedUse
  option scoped
  params x y minPrice maxPrice initialPrice
  results pool err
  modular
  requires x >= 0 && y >= 0
  ensures permitted: imp(isnil(err), okRange(minPrice, maxPrice, initialPrice))
  ensures takesBase: imp(isnil(err), pool.ry <= y)
  ensures range: imp(isnil(err), pool.minPrice == minPrice && pool.maxPrice == maxPrice)
  ensures takesQuote: imp(isnil(err), pool.rx <= x)

func (keeper.Keeper).ValidateMsgCreateRangedPool as validateCreateRanged
  params k ctx msg
  results err
  using tickDownUse
  requires nactive(msg.PairId) < 4294967296
  requires imp(has("Pair", msg.PairId), rec("Pair", msg.PairId).Id == msg.PairId)
  ensures pair: imp(isnil(err), has("Pair", msg.PairId))
  ensures limit: imp(isnil(err), nactive(msg.PairId) < param("MaxNumActivePoolsPerPair"))
  ensures ticks: imp(isnil(err), amm__PriceToDownTick(msg.MinPrice, param("TickPrecision")) == msg.MinPrice && amm__PriceToDownTick(msg.MaxPrice, param("TickPrecision")) == msg.MaxPrice && amm__PriceToDownTick(msg.InitialPrice, param("TickPrecision")) == msg.InitialPrice)
  ensures lowest: imp(isnil(err), msg.MinPrice >= amm__LowestTick(param("TickPrecision")))
  ensures pure: onlychanges()
  loopin (keeper.Keeper).IteratePoolsByPair 0: numActivePools == cnt(x, visitedset("PoolsByPair"), !has("Pool", part("PoolsByPair", x, 1)) || active(x))
  ensures cover1: isnil(err)

define got(d) = bal(addr(pool.ReserveAddress), d) - old(bal(addr(pool.ReserveAddress), d))

func (keeper.Keeper).CreateRangedPool as createRangedPool
  params k ctx msg
  results pool err
  forall dd string
  using tickDownUse createRangedUse
  requires nactive(msg.PairId) < 4294967296
  requires validaddr(msg.Creator) && validaddr(param("FeeCollectorAddress"))
  requires imp(has("Pair", msg.PairId), rec("Pair", msg.PairId).Id == msg.PairId && validdenom(rec("Pair", msg.PairId).BaseCoinDenom) && validdenom(rec("Pair", msg.PairId).QuoteCoinDenom))
  ensures id: imp(isnil(err), pool.Id == old(lastPool()) + 1 && lastPool() == pool.Id)
  ensures fields: imp(isnil(err), pool.Type == types.PoolTypeRanged && pool.PairId == msg.PairId && !pool.Disabled && pool.LastDepositRequestId == 0 && pool.LastWithdrawRequestId == 0)
  ensures creator: imp(isnil(err), addr(pool.Creator) == addr(msg.Creator))
  ensures stored: imp(isnil(err), has("Pool", pool.Id) && rec("Pool", pool.Id) == pool && others("Pool", pool.Id))
  ensures range: imp(isnil(err), pool.MinPrice == msg.MinPrice && pool.MaxPrice == msg.MaxPrice && okRange(msg.MinPrice, msg.MaxPrice, msg.InitialPrice))
  ensures index: imp(isnil(err), has("PoolsByPair", pool.PairId, pool.Id) && others("PoolsByPair", pool.PairId, pool.Id))
  ensures minted: imp(isnil(err), supply(pool.PoolCoinDenom) - old(supply(pool.PoolCoinDenom)) >= param("MinInitialPoolCoinSupply"))
  ensures only: onlychanges("kv.Pool#", "kv.Pool.", "kv.PoolByReserve", "kv.PoolsByPair", "kv.LastPoolId", "$bal", "$supply")
  ensures cover1: isnil(err)
  ensures fee: imp(isnil(err) && dd != rec("Pair", msg.PairId).BaseCoinDenom && dd != rec("Pair", msg.PairId).QuoteCoinDenom && dd != pool.PoolCoinDenom && addr(msg.Creator) != collector(), \
      bal(collector(), dd) == old(bal(collector(), dd)) + amt(param("PoolCreationFee"), dd))
  ensures moved: imp(isnil(err) && addr(pool.ReserveAddress) != addr(msg.Creator) && addr(pool.ReserveAddress) != collector(), \
      moves(addr(msg.Creator), addr(pool.ReserveAddress), coins(coin(rec("Pair", msg.PairId).QuoteCoinDenom, got(rec("Pair", msg.PairId).QuoteCoinDenom)), coin(rec("Pair", msg.PairId).BaseCoinDenom, got(rec("Pair", msg.PairId).BaseCoinDenom))), \
      addr(msg.Creator), collector(), param("PoolCreationFee"), nil, addr(msg.Creator), coin(pool.PoolCoinDenom, supply(pool.PoolCoinDenom) - old(supply(pool.PoolCoinDenom)))))
