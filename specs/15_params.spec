property C13

func (keeper.msgServer).UpdateParams as updateParams
  params k goCtx req
  results resp err
  ensures refuse: imp(req.Authority != k.Keeper.authority, !isnil(err) && onlychanges())
  ensures accept: imp(req.Authority == k.Keeper.authority, isnil(err))
  ensures only: onlychanges("param.BatchSize", "param.TickPrecision", "param.FeeCollectorAddress", "param.DustCollectorAddress", "param.MinInitialPoolCoinSupply", "param.PairCreationFee", "param.PoolCreationFee", "param.MinInitialDepositAmount", "param.MaxPriceLimitRatio", "param.MaxNumMarketMakingOrderTicks", "param.MaxNumMarketMakingOrdersPerPair", "param.MaxOrderLifespan", "param.SwapFeeRate", "param.WithdrawFeeRate", "param.DepositExtraGas", "param.WithdrawExtraGas", "param.OrderExtraGas", "param.MaxNumActivePoolsPerPair")
  ensures setBatchSize: imp(isnil(err), param("BatchSize") == req.Params.BatchSize)
  ensures setTickPrecision: imp(isnil(err), param("TickPrecision") == req.Params.TickPrecision)
  ensures setFeeCollectorAddress: imp(isnil(err), param("FeeCollectorAddress") == req.Params.FeeCollectorAddress)
  ensures setDustCollectorAddress: imp(isnil(err), param("DustCollectorAddress") == req.Params.DustCollectorAddress)
  ensures setMinInitialPoolCoinSupply: imp(isnil(err), param("MinInitialPoolCoinSupply") == req.Params.MinInitialPoolCoinSupply)
  ensures setPairCreationFee: imp(isnil(err), param("PairCreationFee") == req.Params.PairCreationFee)
  ensures setPoolCreationFee: imp(isnil(err), param("PoolCreationFee") == req.Params.PoolCreationFee)
  ensures setMinInitialDepositAmount: imp(isnil(err), param("MinInitialDepositAmount") == req.Params.MinInitialDepositAmount)
  ensures setMaxPriceLimitRatio: imp(isnil(err), param("MaxPriceLimitRatio") == req.Params.MaxPriceLimitRatio)
  ensures setMaxNumMarketMakingOrderTicks: imp(isnil(err), param("MaxNumMarketMakingOrderTicks") == req.Params.MaxNumMarketMakingOrderTicks)
  ensures setMaxNumMarketMakingOrdersPerPair: imp(isnil(err), param("MaxNumMarketMakingOrdersPerPair") == req.Params.MaxNumMarketMakingOrdersPerPair)
  ensures setMaxOrderLifespan: imp(isnil(err), param("MaxOrderLifespan") == req.Params.MaxOrderLifespan)
  ensures setSwapFeeRate: imp(isnil(err), param("SwapFeeRate") == req.Params.SwapFeeRate)
  ensures setWithdrawFeeRate: imp(isnil(err), param("WithdrawFeeRate") == req.Params.WithdrawFeeRate)
  ensures setDepositExtraGas: imp(isnil(err), param("DepositExtraGas") == req.Params.DepositExtraGas)
  ensures setWithdrawExtraGas: imp(isnil(err), param("WithdrawExtraGas") == req.Params.WithdrawExtraGas)
  ensures setOrderExtraGas: imp(isnil(err), param("OrderExtraGas") == req.Params.OrderExtraGas)
  ensures setMaxNumActivePoolsPerPair: imp(isnil(err), param("MaxNumActivePoolsPerPair") == req.Params.MaxNumActivePoolsPerPair)
  ensures cover1: isnil(err)
  ensures cover2: !isnil(err)

func (keeper.Keeper).GetParams as getParams
  params k ctx
  results p
  ensures only: onlychanges()
  ensures getBatchSize: p.BatchSize == param("BatchSize")
  ensures getTickPrecision: p.TickPrecision == param("TickPrecision")
  ensures getFeeCollectorAddress: p.FeeCollectorAddress == param("FeeCollectorAddress")
  ensures getDustCollectorAddress: p.DustCollectorAddress == param("DustCollectorAddress")
  ensures getMinInitialPoolCoinSupply: p.MinInitialPoolCoinSupply == param("MinInitialPoolCoinSupply")
  ensures getPairCreationFee: p.PairCreationFee == param("PairCreationFee")
  ensures getPoolCreationFee: p.PoolCreationFee == param("PoolCreationFee")
  ensures getMinInitialDepositAmount: p.MinInitialDepositAmount == param("MinInitialDepositAmount")
  ensures getMaxPriceLimitRatio: p.MaxPriceLimitRatio == param("MaxPriceLimitRatio")
  ensures getMaxNumMarketMakingOrderTicks: p.MaxNumMarketMakingOrderTicks == param("MaxNumMarketMakingOrderTicks")
  ensures getMaxNumMarketMakingOrdersPerPair: p.MaxNumMarketMakingOrdersPerPair == param("MaxNumMarketMakingOrdersPerPair")
  ensures getMaxOrderLifespan: p.MaxOrderLifespan == param("MaxOrderLifespan")
  ensures getSwapFeeRate: p.SwapFeeRate == param("SwapFeeRate")
  ensures getWithdrawFeeRate: p.WithdrawFeeRate == param("WithdrawFeeRate")
  ensures getDepositExtraGas: p.DepositExtraGas == param("DepositExtraGas")
  ensures getWithdrawExtraGas: p.WithdrawExtraGas == param("WithdrawExtraGas")
  ensures getOrderExtraGas: p.OrderExtraGas == param("OrderExtraGas")
  ensures getMaxNumActivePoolsPerPair: p.MaxNumActivePoolsPerPair == param("MaxNumActivePoolsPerPair")

func (keeper.Keeper).GetBatchSize as pGetBatchSize
  params k ctx
  results v
  ensures value: v == param("BatchSize") && onlychanges()

func (keeper.Keeper).GetTickPrecision as pGetTickPrecision
  params k ctx
  results v
  ensures value: v == param("TickPrecision") && onlychanges()

func (keeper.Keeper).GetMinInitialPoolCoinSupply as pGetMinInitialPoolCoinSupply
  params k ctx
  results v
  ensures value: v == param("MinInitialPoolCoinSupply") && onlychanges()

func (keeper.Keeper).GetPairCreationFee as pGetPairCreationFee
  params k ctx
  results v
  ensures value: v == param("PairCreationFee") && onlychanges()

func (keeper.Keeper).GetPoolCreationFee as pGetPoolCreationFee
  params k ctx
  results v
  ensures value: v == param("PoolCreationFee") && onlychanges()

func (keeper.Keeper).GetMinInitialDepositAmount as pGetMinInitialDepositAmount
  params k ctx
  results v
  ensures value: v == param("MinInitialDepositAmount") && onlychanges()

func (keeper.Keeper).GetMaxPriceLimitRatio as pGetMaxPriceLimitRatio
  params k ctx
  results v
  ensures value: v == param("MaxPriceLimitRatio") && onlychanges()

func (keeper.Keeper).GetMaxNumMarketMakingOrderTicks as pGetMaxNumMarketMakingOrderTicks
  params k ctx
  results v
  ensures value: v == param("MaxNumMarketMakingOrderTicks") && onlychanges()

func (keeper.Keeper).GetMaxNumMarketMakingOrdersPerPair as pGetMaxNumMarketMakingOrdersPerPair
  params k ctx
  results v
  ensures value: v == param("MaxNumMarketMakingOrdersPerPair") && onlychanges()

func (keeper.Keeper).GetMaxOrderLifespan as pGetMaxOrderLifespan
  params k ctx
  results v
  ensures value: v == param("MaxOrderLifespan") && onlychanges()

func (keeper.Keeper).GetWithdrawFeeRate as pGetWithdrawFeeRate
  params k ctx
  results v
  ensures value: v == param("WithdrawFeeRate") && onlychanges()

func (keeper.Keeper).GetDepositExtraGas as pGetDepositExtraGas
  params k ctx
  results v
  ensures value: v == param("DepositExtraGas") && onlychanges()

func (keeper.Keeper).GetWithdrawExtraGas as pGetWithdrawExtraGas
  params k ctx
  results v
  ensures value: v == param("WithdrawExtraGas") && onlychanges()

func (keeper.Keeper).GetOrderExtraGas as pGetOrderExtraGas
  params k ctx
  results v
  ensures value: v == param("OrderExtraGas") && onlychanges()

func (keeper.Keeper).GetMaxNumActivePoolsPerPair as pGetMaxNumActivePoolsPerPair
  params k ctx
  results v
  ensures value: v == param("MaxNumActivePoolsPerPair") && onlychanges()

func (keeper.Keeper).GetFeeCollector as pGetFeeCollector
  params k ctx
  results v
  ensures value: v == addr(param("FeeCollectorAddress")) && onlychanges()

func (keeper.Keeper).GetDustCollector as pGetDustCollector
  params k ctx
  results v
  ensures value: v == addr(param("DustCollectorAddress")) && onlychanges()

func keeper.NewKeeper as newKeeper
  params cdc storeService logger authority paramSpace accountKeeper bankKeeper
  results k
  ensures kept: k.authority == authority && k.logger == logger && k.accountKeeper == accountKeeper && k.bankKeeper == bankKeeper && k.storeService == storeService && k.cdc == cdc
  ensures valid: validaddr(authority)

func (keeper.Keeper).GetAuthority as getAuthority
  params k
  results a
  ensures same: a == k.authority

