property C11
# iskey("F", bytes, parts...): the bytes are exactly the key of those parts in family F's layout
# (first byte, then 8-byte numbers and strings behind their length byte).  The layouts have
# distinct first bytes and delimited parts, so they are uniquely decodable.

define okdenom(d) = validdenom(d)

func types.GetPairKey as keyPair
  params id
  results r
  ensures key: iskey("Pair", r, id)

func types.GetPairIndexKey as keyPairIndex
  params a b
  results r
  requires validdenom(a) && validdenom(b)
  ensures key: iskey("PairIndex", r, a, b)

func types.GetPairsByDenomsIndexKey as keyPairsByDenoms
  params a b id
  results r
  requires validdenom(a) && validdenom(b)
  ensures key: iskey("PairsByDenoms", r, a, b, id)

func types.GetPairsByDenomIndexKeyPrefix as prefixPairsByDenom
  params a
  results r
  requires validdenom(a)
  ensures key: isprefix("PairsByDenoms", r, a)

func types.GetPairsByDenomsIndexKeyPrefix as prefixPairsByDenoms
  params a b
  results r
  requires validdenom(a) && validdenom(b)
  ensures key: isprefix("PairsByDenoms", r, a, b)

func types.GetPoolKey as keyPool
  params id
  results r
  ensures key: iskey("Pool", r, id)

func types.GetPoolByReserveAddressIndexKey as keyPoolByReserve
  params a
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: iskey("PoolByReserve", r, a)

func types.GetPoolsByPairIndexKey as keyPoolsByPair
  params p id
  results r
  ensures key: iskey("PoolsByPair", r, p, id)

func types.GetPoolsByPairIndexKeyPrefix as prefixPoolsByPair
  params p
  results r
  ensures key: isprefix("PoolsByPair", r, p)

func types.GetDepositRequestKey as keyDeposit
  params p id
  results r
  ensures key: iskey("DepositRequest", r, p, id)

func types.GetDepositRequestIndexKey as keyDepositIndex
  params a p id
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: iskey("DepositIndex", r, a, p, id)

func types.GetDepositRequestIndexKeyPrefix as prefixDepositIndex
  params a
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: isprefix("DepositIndex", r, a)

func types.GetWithdrawRequestKey as keyWithdraw
  params p id
  results r
  ensures key: iskey("WithdrawRequest", r, p, id)

func types.GetWithdrawRequestIndexKey as keyWithdrawIndex
  params a p id
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: iskey("WithdrawIndex", r, a, p, id)

func types.GetWithdrawRequestIndexKeyPrefix as prefixWithdrawIndex
  params a
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: isprefix("WithdrawIndex", r, a)

func types.GetOrderKey as keyOrder
  params p id
  results r
  ensures key: iskey("Order", r, p, id)

func types.GetOrdersByPairKeyPrefix as prefixOrders
  params p
  results r
  ensures key: isprefix("Order", r, p)

func types.GetOrderIndexKey as keyOrderIndex
  params a p id
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: iskey("OrderIndex", r, a, p, id)

func types.GetOrderIndexKeyPrefix as prefixOrderIndex
  params a
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: isprefix("OrderIndex", r, a)

func types.GetNumMMOrdersKey as keyNumMM
  params a p
  results r
  requires len(a) > 0 && len(a) <= 255
  ensures key: iskey("NumMM", r, a, p)

lemma parsePairsByDenoms
  var a string
  var b string
  var id uint64
  assume validdenom(a) && validdenom(b)
  call k := types.GetPairsByDenomsIndexKey(a, b, id)
  call c, d, i := types.ParsePairsByDenomsIndexKey(k)
  assert back: c == a && d == b && i == id

lemma parsePoolsByPair
  var p uint64
  var id uint64
  call k := types.GetPoolsByPairIndexKey(p, id)
  call i := types.ParsePoolsByPairIndexKey(k)
  assert back: i == id

lemma parseDepositIndex
  var a sdk.AccAddress
  var p uint64
  var id uint64
  assume len(a) > 0 && len(a) <= 255
  call k := types.GetDepositRequestIndexKey(a, p, id)
  call c, d, i := types.ParseDepositRequestIndexKey(k)
  assert back: c == a && d == p && i == id

lemma parseWithdrawIndex
  var a sdk.AccAddress
  var p uint64
  var id uint64
  assume len(a) > 0 && len(a) <= 255
  call k := types.GetWithdrawRequestIndexKey(a, p, id)
  call c, d, i := types.ParseWithdrawRequestIndexKey(k)
  assert back: c == a && d == p && i == id

lemma parseOrderIndex
  var a sdk.AccAddress
  var p uint64
  var id uint64
  assume len(a) > 0 && len(a) <= 255
  call k := types.GetOrderIndexKey(a, p, id)
  call c, d, i := types.ParseOrderIndexKey(k)
  assert back: c == a && d == p && i == id

lemma parseNumMM
  var a sdk.AccAddress
  var p uint64
  assume len(a) > 0 && len(a) <= 255
  call k := types.GetNumMMOrdersKey(a, p)
  call c, d := types.ParseNumMMOrdersKey(k)
  assert back: c == a && d == p
