property C18

define desc(s) = all(a, 0, len(s), all(b, a+1, len(s), s[a].price > s[b].price))
define asc(s) = all(a, 0, len(s), all(b, a+1, len(s), s[a].price < s[b].price))
# the last accumulated sum at or above (below) the price
define over(s, p, incl, r) = imp(len(s) == 0 || !reach(s[0].price, p, incl), r == 0) && \
    all(j, 0, len(s), imp(reach(s[j].price, p, incl) && (j == len(s)-1 || !reach(s[j+1].price, p, incl)), r == s[j].sum))
define reach(q, p, incl) = q > p || incl && q == p
define under(s, p, incl, r) = imp(len(s) == 0 || !below(s[0].price, p, incl), r == 0) && \
    all(j, 0, len(s), imp(below(s[j].price, p, incl) && (j == len(s)-1 || !below(s[j+1].price, p, incl)), r == s[j].sum))
define below(q, p, incl) = q < p || incl && q == p

func (*amm.OrderBookView).BuyAmountOver as buyOver
  params view price inclusive
  results r
  requires desc(view.buyAmtAccSums)
  ensures r: over(view.buyAmtAccSums, price, inclusive, r)
  ensures cover: r > 0

func (*amm.OrderBookView).SellAmountUnder as sellUnder
  params view price inclusive
  results r
  requires asc(view.sellAmtAccSums)
  ensures r: under(view.sellAmtAccSums, price, inclusive, r)
  ensures cover: r > 0

func (*amm.OrderBookView).BuyAmountUnder as buyUnder
  params view price inclusive
  results r
  requires desc(view.buyAmtAccSums) && len(view.buyAmtAccSums) > 0
  ensures r: over(view.buyAmtAccSums, price, !inclusive, view.buyAmtAccSums[len(view.buyAmtAccSums)-1].sum - r)

func (*amm.OrderBookView).SellAmountOver as sellOver
  params view price inclusive
  results r
  requires asc(view.sellAmtAccSums) && len(view.sellAmtAccSums) > 0
  ensures r: under(view.sellAmtAccSums, price, !inclusive, view.sellAmtAccSums[len(view.sellAmtAccSums)-1].sum - r)

func (*amm.orderBookTicks).findPrice as findPrice
  params ticks price
  results i exact
  requires sortedTicks(ticks)
  ensures range: 0 <= i && i <= len(ticks.ticks)
  ensures before: all(a, 0, i, ite(ticks.priceIncreasing, ticks.ticks[a].price < price, ticks.ticks[a].price > price))
  ensures after: all(a, i, len(ticks.ticks), ite(ticks.priceIncreasing, ticks.ticks[a].price >= price, ticks.ticks[a].price <= price))
  ensures exact: exact == (i < len(ticks.ticks) && ticks.ticks[i].price == price)

define sortedTicks(t) = all(a, 0, len(t.ticks), all(b, a+1, len(t.ticks), ite(t.priceIncreasing, t.ticks[a].price < t.ticks[b].price, t.ticks[a].price > t.ticks[b].price)))

func amm.TotalMatchableAmount as totalMatchable
  params orders price
  results r
  pure orders, price, heapof("[]amm.Order"), heapof("amm.BaseOrder.Direction"), heapof("amm.BaseOrder.OpenAmount#v"), heapof("amm.BaseOrder.OfferCoinAmount#v"), heapof("amm.BaseOrder.PaidOfferCoinAmount#v")
  requires price > 0 && ordersok()
  ensures pos: r >= 0
  ensures sum: r == psum(o, orders, len(orders), amm__MatchableAmount(o, price))
  loop 0: amt == psum(o, orders, rangeindex+1, amm__MatchableAmount(o, price)) && amt >= 0

func (*amm.OrderBookView).HighestBuyPrice as highestBuy
  params view
  results p found
  requires all(a, 0, len(view.buyAmtAccSums), view.buyAmtAccSums[a].sum >= 0 && all(b, a+1, len(view.buyAmtAccSums), view.buyAmtAccSums[a].sum <= view.buyAmtAccSums[b].sum))
  ensures none: imp(len(view.buyAmtAccSums) == 0 || view.buyAmtAccSums[len(view.buyAmtAccSums)-1].sum == 0, !found)
  ensures first: all(j, 0, len(view.buyAmtAccSums), imp(view.buyAmtAccSums[j].sum > 0 && (j == 0 || view.buyAmtAccSums[j-1].sum == 0), found && p == view.buyAmtAccSums[j].price))

func (*amm.OrderBookView).LowestSellPrice as lowestSell
  params view
  results p found
  requires all(a, 0, len(view.sellAmtAccSums), view.sellAmtAccSums[a].sum >= 0 && all(b, a+1, len(view.sellAmtAccSums), view.sellAmtAccSums[a].sum <= view.sellAmtAccSums[b].sum))
  ensures none: imp(len(view.sellAmtAccSums) == 0 || view.sellAmtAccSums[len(view.sellAmtAccSums)-1].sum == 0, !found)
  ensures first: all(j, 0, len(view.sellAmtAccSums), imp(view.sellAmtAccSums[j].sum > 0 && (j == 0 || view.sellAmtAccSums[j-1].sum == 0), found && p == view.sellAmtAccSums[j].price))

define tickAmt(t) = callfn("amm.TotalMatchableAmount", t.orders, t.price)

func (*amm.OrderBook).MakeView as makeView
  params ob
  results view
  requires ordersok() && all(i, 0, len(ob.buys.ticks), ob.buys.ticks[i].price > 0) && all(i, 0, len(ob.sells.ticks), ob.sells.ticks[i].price > 0)
  ensures buys: len(view.buyAmtAccSums) == len(ob.buys.ticks) && all(i, 0, len(ob.buys.ticks), view.buyAmtAccSums[i].price == ob.buys.ticks[i].price)
  ensures sells: len(view.sellAmtAccSums) == len(ob.sells.ticks) && all(i, 0, len(ob.sells.ticks), view.sellAmtAccSums[i].price == ob.sells.ticks[i].price)
  ensures buySums: all(i, 0, len(ob.buys.ticks), view.buyAmtAccSums[i].sum == psum(t, ob.buys.ticks, i+1, tickAmt(t)))
  ensures sellSums: all(i, 0, len(ob.sells.ticks), view.sellAmtAccSums[i].sum == psum(t, ob.sells.ticks, i+1, tickAmt(t)))
  loop 0: all(i, 0, rangeindex+1, view.buyAmtAccSums[i].price == ob.buys.ticks[i].price && view.buyAmtAccSums[i].sum == psum(t, ob.buys.ticks, i+1, tickAmt(t))) && inst(psum(t, ob.buys.ticks, rangeindex+1, tickAmt(t)))
  loop 1: all(i, 0, rangeindex+1, view.sellAmtAccSums[i].price == ob.sells.ticks[i].price && view.sellAmtAccSums[i].sum == psum(t, ob.sells.ticks, i+1, tickAmt(t))) && inst(psum(t, ob.sells.ticks, rangeindex+1, tickAmt(t)))
