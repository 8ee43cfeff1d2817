property C02
# $paidBuy, $recvBuy, $openBuy (and Sell): totals over all orders of a direction, kept
# by the verifier at every write to an order.

define ledger(diff) = diff == ($paidBuy - old($paidBuy)) - ($recvSell - old($recvSell)) && \
    $recvBuy - old($recvBuy) == old($openBuy) - $openBuy && $paidSell - old($paidSell) == old($openSell) - $openSell
define grows() = $paidBuy >= old($paidBuy) && $recvBuy >= old($recvBuy) && $paidSell >= old($paidSell) && $recvSell >= old($recvSell)
define rounds(price) = ($paidBuy - old($paidBuy))*P >= price*($recvBuy - old($recvBuy)) && ($recvSell - old($recvSell))*P <= price*($paidSell - old($paidSell))

func amm.FillOrder as fillLedger
  params order amt price
  results diff
  option ghostsums
  modular
  modifies orders
  requires price > 0 && amt >= 0 && ordersok()
  ensures ledger: ledger(diff)
  ensures grows: grows()
  ensures rounds: rounds(price)
  ensures ok: ordersok()
  ensures amount: order.OpenAmount == old(order.OpenAmount) - amt

func amm.FulfillOrders as fulfillLedger
  params orders price
  results diff
  option ghostsums
  modular
  modifies orders
  requires price > 0 && ordersok()
  ensures ledger: ledger(diff)
  ensures grows: grows()
  ensures rounds: rounds(price)
  ensures ok: ordersok()
  loop 0: ledger(quoteCoinDiff) && grows() && rounds(price) && ordersok()

func amm.TotalAmount as totalAmount
  params orders
  results r
  requires ordersok()
  modular
  ensures sum: r == psum(o, orders, len(orders), o.Amount)
  ensures pos: r >= 0
  loop 0: amt == psum(o, orders, rangeindex+1, o.Amount) && amt >= 0

func amm.DistributeOrderAmountToOrders as distributeOrders
  params orders amt price
  results diff
  option ghostsums
  modular
  modifies orders
  requires price > 0 && amt >= 0 && ordersok()
  ensures ledger: ledger(diff)
  ensures grows: grows()
  ensures rounds: rounds(price)
  ensures ok: ordersok()
  loop 0: totalMatchedAmt * totalAmt <= amt * psum(o, orders, rangeindex+1, o.Amount)
  loop 0: totalAmt > 0 || totalMatchedAmt == 0
  loop 0: totalMatchedAmt >= 0 && everykey(k, matchedAmtByOrder, matchedAmtByOrder[k] >= 0)
  loop 1: remainingAmt >= 0
  loop 1: everykey(k, matchedAmtByOrder, matchedAmtByOrder[k] >= 0)
  loop 3: ledger(quoteCoinDiff) && grows() && rounds(price) && ordersok()

func amm.GroupOrdersByBatchId as groupAny
  params orders
  results groups
  option alt
  modular
  modifies *amm.OrderGroup *[]amm.Order

func amm.DistributeOrderAmountToTick as distributeTick
  params tick amt price
  results diff
  option ghostsums
  modular
  modifies orders *amm.OrderGroup *[]amm.Order
  requires price > 0 && amt >= 0 && ordersok()
  ensures ledger: ledger(diff)
  ensures grows: grows()
  ensures rounds: rounds(price)
  ensures ok: ordersok()
  loop 0: remainingAmt >= 0 && ledger(quoteCoinDiff) && grows() && rounds(price) && ordersok()
