property C06

define gescrow() = gvar("types.GlobalEscrowAddress")
define poolok(id) = has("Pool", id) && rec("Pool", id).Id == id && validaddr(rec("Pool", id).ReserveAddress) && has("Pair", rec("Pool", id).PairId) && validdenom(rec("Pool", id).PoolCoinDenom) && validdenom(rec("Pair", rec("Pool", id).PairId).BaseCoinDenom) && validdenom(rec("Pair", rec("Pool", id).PairId).QuoteCoinDenom) && rec("Pair", rec("Pool", id).PairId).BaseCoinDenom != rec("Pair", rec("Pool", id).PairId).QuoteCoinDenom
define qd(id) = rec("Pair", rec("Pool", id).PairId).QuoteCoinDenom
define bd(id) = rec("Pair", rec("Pool", id).PairId).BaseCoinDenom
define pcd(id) = rec("Pool", id).PoolCoinDenom
define reserve(id) = addr(rec("Pool", id).ReserveAddress)
define waiting(r) = r.Status == types.RequestStatusNotExecuted

func (keeper.Keeper).Deposit as depositRequest
  params k ctx msg
  results req err
  requires imp(has("Pool", msg.PoolId), poolok(msg.PoolId)) && validaddr(msg.Depositor)
  ensures open: imp(isnil(err), old(has("Pool", msg.PoolId) && !rec("Pool", msg.PoolId).Disabled))
  ensures moved: imp(isnil(err), moves(addr(msg.Depositor), gescrow(), msg.DepositCoins))
  ensures id: imp(isnil(err), req.Id == old(rec("Pool", msg.PoolId).LastDepositRequestId) + 1 && rec("Pool", msg.PoolId).LastDepositRequestId == req.Id && sameexcept(rec("Pool", msg.PoolId), old(rec("Pool", msg.PoolId)), "LastDepositRequestId"))
  ensures fields: imp(isnil(err), waiting(req) && req.PoolId == msg.PoolId && req.MsgHeight == blockheight() && addr(req.Depositor) == addr(msg.Depositor) && req.MintedPoolCoin.Denom == pcd(msg.PoolId) && req.MintedPoolCoin.Amount == 0)
  ensures coins: imp(isnil(err), req.DepositCoins == msg.DepositCoins && len(req.AcceptedCoins) == 0)
  ensures stored: imp(isnil(err), has("DepositRequest", msg.PoolId, req.Id) && rec("DepositRequest", msg.PoolId, req.Id) == req && others("DepositRequest", msg.PoolId, req.Id) && others("Pool", msg.PoolId))
  ensures index: imp(isnil(err), has("DepositIndex", addr(msg.Depositor), msg.PoolId, req.Id) && others("DepositIndex", addr(msg.Depositor), msg.PoolId, req.Id))
  ensures refused: imp(!isnil(err), onlychanges())
  ensures only: onlychanges("kv.Pool#", "kv.Pool.", "kv.DepositRequest", "kv.DepositIndex", "$bal")
  ensures cover1: isnil(err)

func (keeper.Keeper).Withdraw as withdrawRequest
  params k ctx msg
  results req err
  requires imp(has("Pool", msg.PoolId), poolok(msg.PoolId)) && validaddr(msg.Withdrawer) && msg.PoolCoin.Amount > 0
  ensures open: imp(isnil(err), old(has("Pool", msg.PoolId) && !rec("Pool", msg.PoolId).Disabled && msg.PoolCoin.Denom == pcd(msg.PoolId)))
  ensures moved: imp(isnil(err), moves(addr(msg.Withdrawer), gescrow(), coin(msg.PoolCoin.Denom, msg.PoolCoin.Amount)))
  ensures id: imp(isnil(err), req.Id == old(rec("Pool", msg.PoolId).LastWithdrawRequestId) + 1 && rec("Pool", msg.PoolId).LastWithdrawRequestId == req.Id && sameexcept(rec("Pool", msg.PoolId), old(rec("Pool", msg.PoolId)), "LastWithdrawRequestId"))
  ensures fields: imp(isnil(err), waiting(req) && req.PoolId == msg.PoolId && req.MsgHeight == blockheight() && addr(req.Withdrawer) == addr(msg.Withdrawer) && req.PoolCoin.Denom == msg.PoolCoin.Denom && req.PoolCoin.Amount == msg.PoolCoin.Amount)
  ensures stored: imp(isnil(err), has("WithdrawRequest", msg.PoolId, req.Id) && rec("WithdrawRequest", msg.PoolId, req.Id) == req && others("WithdrawRequest", msg.PoolId, req.Id) && others("Pool", msg.PoolId))
  ensures index: imp(isnil(err), has("WithdrawIndex", addr(msg.Withdrawer), msg.PoolId, req.Id) && others("WithdrawIndex", addr(msg.Withdrawer), msg.PoolId, req.Id))
  ensures refused: imp(!isnil(err), onlychanges())
  ensures only: onlychanges("kv.Pool#", "kv.Pool.", "kv.WithdrawRequest", "kv.WithdrawIndex", "$bal")
  ensures cover1: isnil(err)

func (keeper.Keeper).FinishDepositRequest as finishDeposit
  params k ctx req status
  results err
  requires validaddr(req.Depositor)
  ensures once: imp(!waiting(req), isnil(err) && onlychanges())
  ensures refund: imp(isnil(err) && waiting(req), moves(gescrow(), addr(req.Depositor), req.DepositCoins, addr(req.Depositor), gescrow(), req.AcceptedCoins))
  ensures stored: imp(isnil(err) && waiting(req), has("DepositRequest", req.PoolId, req.Id) && rec("DepositRequest", req.PoolId, req.Id).Status == status && sameexcept(rec("DepositRequest", req.PoolId, req.Id), req, "Status"))
  ensures others: others("DepositRequest", req.PoolId, req.Id)
  ensures failed: imp(!isnil(err), onlychanges())
  ensures only: onlychanges("kv.DepositRequest#", "kv.DepositRequest.", "$bal")
  ensures cover1: isnil(err) && waiting(req)

func (keeper.Keeper).FinishWithdrawRequest as finishWithdraw
  params k ctx req status
  results err
  requires validaddr(req.Withdrawer) && req.PoolCoin.Amount >= 0
  ensures once: imp(!waiting(req), isnil(err) && onlychanges())
  ensures refund: imp(isnil(err) && waiting(req) && status == types.RequestStatusFailed, moves(gescrow(), addr(req.Withdrawer), coin(req.PoolCoin.Denom, req.PoolCoin.Amount)))
  ensures keep: imp(isnil(err) && status != types.RequestStatusFailed, unchanged("$bal"))
  ensures stored: imp(isnil(err) && waiting(req), has("WithdrawRequest", req.PoolId, req.Id) && rec("WithdrawRequest", req.PoolId, req.Id).Status == status && sameexcept(rec("WithdrawRequest", req.PoolId, req.Id), req, "Status"))
  ensures others: others("WithdrawRequest", req.PoolId, req.Id)
  ensures failed: imp(!isnil(err), onlychanges())
  ensures only: onlychanges("kv.WithdrawRequest#", "kv.WithdrawRequest.", "$bal")
  ensures cover1: isnil(err) && waiting(req)

func (keeper.Keeper).ExecuteDepositRequest as executeDeposit
  params k ctx req
  results err
  requires waiting(req) && poolok(req.PoolId) && validaddr(req.Depositor) && len(req.AcceptedCoins) == 0
  requires reserve(req.PoolId) != addr(req.Depositor) && reserve(req.PoolId) != gescrow()
  requires rec("Pool", req.PoolId).Type == types.PoolTypeBasic || rec("Pool", req.PoolId).Type == types.PoolTypeRanged
  ensures settled: imp(isnil(err), has("DepositRequest", req.PoolId, req.Id) && (rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded || rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed))
  ensures kept: imp(isnil(err), sameexcept(rec("DepositRequest", req.PoolId, req.Id), req, "Status", "AcceptedCoins", "MintedPoolCoin"))
  ensures disabled: imp(isnil(err) && old(rec("Pool", req.PoolId).Disabled), rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed)
  ensures empty: imp(isnil(err) && old(supply(pcd(req.PoolId)) == 0), rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed && rec("Pool", req.PoolId).Disabled)
  ensures refunded: imp(isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed, moves(gescrow(), addr(req.Depositor), req.DepositCoins) && unchanged("$supply"))
  ensures moved: imp(isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded, moves(gescrow(), reserve(req.PoolId), rec("DepositRequest", req.PoolId, req.Id).AcceptedCoins, nil, addr(req.Depositor), coin(pcd(req.PoolId), rec("DepositRequest", req.PoolId, req.Id).MintedPoolCoin.Amount), gescrow(), addr(req.Depositor), req.DepositCoins, addr(req.Depositor), gescrow(), rec("DepositRequest", req.PoolId, req.Id).AcceptedCoins))
  ensures minted: imp(isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded, rec("DepositRequest", req.PoolId, req.Id).MintedPoolCoin.Denom == pcd(req.PoolId) && rec("DepositRequest", req.PoolId, req.Id).MintedPoolCoin.Amount > 0 && supply(pcd(req.PoolId)) == old(supply(pcd(req.PoolId))) + rec("DepositRequest", req.PoolId, req.Id).MintedPoolCoin.Amount)
  ensures fairX: imp(isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded, old(spendable(reserve(req.PoolId), qd(req.PoolId))) * rec("DepositRequest", req.PoolId, req.Id).MintedPoolCoin.Amount <= amt(rec("DepositRequest", req.PoolId, req.Id).AcceptedCoins, qd(req.PoolId)) * old(supply(pcd(req.PoolId))))
  ensures fairY: imp(isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded, old(spendable(reserve(req.PoolId), bd(req.PoolId))) * rec("DepositRequest", req.PoolId, req.Id).MintedPoolCoin.Amount <= amt(rec("DepositRequest", req.PoolId, req.Id).AcceptedCoins, bd(req.PoolId)) * old(supply(pcd(req.PoolId))))
  ensures others: imp(isnil(err), others("DepositRequest", req.PoolId, req.Id) && others("Pool", req.PoolId) && sameexcept(rec("Pool", req.PoolId), old(rec("Pool", req.PoolId)), "Disabled"))
  ensures only: onlychanges("kv.Pool#", "kv.Pool.", "kv.DepositRequest#", "kv.DepositRequest.", "$bal", "$supply")
  ensures cover1: isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded
  ensures cover2: isnil(err) && rec("DepositRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed && !rec("Pool", req.PoolId).Disabled

func (keeper.Keeper).ExecuteWithdrawRequest as executeWithdraw
  params k ctx req
  results err
  requires waiting(req) && poolok(req.PoolId) && validaddr(req.Withdrawer) && req.PoolCoin.Denom == pcd(req.PoolId) && req.PoolCoin.Amount > 0
  requires 0 <= param("WithdrawFeeRate") && param("WithdrawFeeRate") <= P
  requires req.PoolCoin.Amount <= supply(pcd(req.PoolId)) || supply(pcd(req.PoolId)) == 0 || rec("Pool", req.PoolId).Disabled
  requires rec("Pool", req.PoolId).Type == types.PoolTypeBasic || rec("Pool", req.PoolId).Type == types.PoolTypeRanged
  ensures settled: imp(isnil(err), has("WithdrawRequest", req.PoolId, req.Id) && (rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded || rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed))
  ensures kept: imp(isnil(err), sameexcept(rec("WithdrawRequest", req.PoolId, req.Id), req, "Status", "WithdrawnCoins"))
  ensures disabled: imp(isnil(err) && old(rec("Pool", req.PoolId).Disabled), rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed)
  ensures empty: imp(isnil(err) && old(supply(pcd(req.PoolId)) == 0), rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed && rec("Pool", req.PoolId).Disabled)
  ensures refunded: imp(isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusFailed, moves(gescrow(), addr(req.Withdrawer), coin(req.PoolCoin.Denom, req.PoolCoin.Amount)) && unchanged("$supply"))
  ensures moved: imp(isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded, moves(gescrow(), nil, coin(req.PoolCoin.Denom, req.PoolCoin.Amount), reserve(req.PoolId), addr(req.Withdrawer), rec("WithdrawRequest", req.PoolId, req.Id).WithdrawnCoins))
  ensures burned: imp(isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded, supply(pcd(req.PoolId)) == old(supply(pcd(req.PoolId))) - req.PoolCoin.Amount)
  ensures last: imp(isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded && supply(pcd(req.PoolId)) == 0, rec("Pool", req.PoolId).Disabled && amt(rec("WithdrawRequest", req.PoolId, req.Id).WithdrawnCoins, qd(req.PoolId)) == old(spendable(reserve(req.PoolId), qd(req.PoolId))) && amt(rec("WithdrawRequest", req.PoolId, req.Id).WithdrawnCoins, bd(req.PoolId)) == old(spendable(reserve(req.PoolId), bd(req.PoolId))))
  ensures shareX: imp(isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded && supply(pcd(req.PoolId)) > 0, amt(rec("WithdrawRequest", req.PoolId, req.Id).WithdrawnCoins, qd(req.PoolId)) * old(supply(pcd(req.PoolId))) * P <= old(spendable(reserve(req.PoolId), qd(req.PoolId))) * req.PoolCoin.Amount * (P - param("WithdrawFeeRate")))
  ensures shareY: imp(isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded && supply(pcd(req.PoolId)) > 0, amt(rec("WithdrawRequest", req.PoolId, req.Id).WithdrawnCoins, bd(req.PoolId)) * old(supply(pcd(req.PoolId))) * P <= old(spendable(reserve(req.PoolId), bd(req.PoolId))) * req.PoolCoin.Amount * (P - param("WithdrawFeeRate")))
  ensures others: imp(isnil(err), others("WithdrawRequest", req.PoolId, req.Id) && others("Pool", req.PoolId) && sameexcept(rec("Pool", req.PoolId), old(rec("Pool", req.PoolId)), "Disabled"))
  ensures only: onlychanges("kv.Pool#", "kv.Pool.", "kv.WithdrawRequest#", "kv.WithdrawRequest.", "$bal", "$supply")
  ensures cover1: isnil(err) && rec("WithdrawRequest", req.PoolId, req.Id).Status == types.RequestStatusSucceeded
