property C18

func (*amm.orderBookTicks).findPrice as findPriceM
  params ticks price
  results i exact
  option alt
  modular
  requires sortedTicks(ticks)
  ensures range: 0 <= i && i <= len(ticks.ticks)
  ensures before: all(a, 0, i, ite(ticks.priceIncreasing, ticks.ticks[a].price < price, ticks.ticks[a].price > price))
  ensures after: all(a, i, len(ticks.ticks), ite(ticks.priceIncreasing, ticks.ticks[a].price >= price, ticks.ticks[a].price <= price))
  ensures exact: exact == (i < len(ticks.ticks) && ticks.ticks[i].price == price)

# distinct ticks, each with orders of its own price only
define wfTicks(t) = prior(t) && prior(t.ticks) && all(a, 0, len(t.ticks), t.ticks[a] != nil && prior(t.ticks[a]) && prior(t.ticks[a].orders) && \
    all(b, a+1, len(t.ticks), t.ticks[a] != t.ticks[b]))
define ownPrice(t) = all(a, 0, len(t.ticks), len(t.ticks[a].orders) > 0 && all(z, 0, len(t.ticks[a].orders), t.ticks[a].orders[z].Price == t.ticks[a].price))
define ahead(t, q, p) = ite(t.priceIncreasing, q < p, q > p)

func (*amm.orderBookTicks).addOrder as addOrderTicks
  params ticks order
  timeout 60
  requires sortedTicks(ticks) && ordersok() && wfTicks(ticks) && ownPrice(ticks)
  ensures sorted: sortedTicks(ticks)
  ensures wf: wfTicks(ticks)
  ensures ownPrice: ownPrice(ticks)
  ensures len: len(ticks.ticks) == old(len(ticks.ticks)) || len(ticks.ticks) == old(len(ticks.ticks)) + 1
  ensures own: all(j, 0, len(ticks.ticks), imp(ticks.ticks[j].price == order.Price, len(ticks.ticks[j].orders) > 0 && ticks.ticks[j].orders[len(ticks.ticks[j].orders)-1] == order))
  ensures some: !all(j, 0, len(ticks.ticks), ticks.ticks[j].price != order.Price)
  ensures sameLen: imp(len(ticks.ticks) == old(len(ticks.ticks)), all(k, 0, len(ticks.ticks), ticks.ticks[k] == old(ticks.ticks[k])))
  ensures insert: imp(len(ticks.ticks) > old(len(ticks.ticks)), all(k, 0, len(ticks.ticks), \
      ite(ahead(ticks, ticks.ticks[k].price, order.Price), ticks.ticks[k] == old(ticks.ticks[k]), \
      ite(ticks.ticks[k].price == order.Price, len(ticks.ticks[k].orders) == 1, ticks.ticks[k] == old(ticks.ticks[k-1])))))
  ensures kept: all(k, 0, old(len(ticks.ticks)), old(ticks.ticks[k]).price == old(ticks.ticks[k].price) && \
      len(old(ticks.ticks[k]).orders) == old(len(ticks.ticks[k].orders)) + ite(old(ticks.ticks[k].price) == order.Price, 1, 0) && \
      all(z, 0, old(len(ticks.ticks[k].orders)), old(ticks.ticks[k]).orders[z] == old(ticks.ticks[k].orders[z])))
  ensures coverNew: len(ticks.ticks) == old(len(ticks.ticks)) + 1
  ensures coverOld: len(ticks.ticks) == old(len(ticks.ticks))

define last(t, o) = all(j, 0, len(t.ticks), imp(t.ticks[j].price == o.Price, t.ticks[j].orders[len(t.ticks[j].orders)-1] == o)) && !all(j, 0, len(t.ticks), t.ticks[j].price != o.Price)
define apart(u, v) = u != v && all(a, 0, len(u.ticks), all(b, 0, len(v.ticks), u.ticks[a] != v.ticks[b]))
define book(ob) = ob.buys != nil && ob.sells != nil && !ob.buys.priceIncreasing && ob.sells.priceIncreasing && prior(ob) && apart(ob.buys, ob.sells) && \
    sortedTicks(ob.buys) && sortedTicks(ob.sells) && wfTicks(ob.buys) && wfTicks(ob.sells) && ownPrice(ob.buys) && ownPrice(ob.sells)

func (*amm.OrderBook).AddOrder as addOrder
  params ob orders
  timeout 60
  requires ordersok() && book(ob) && all(z, 0, len(orders), orders[z].Price > 0)
  ensures book: book(ob)
  ensures inTick: imp(len(orders) > 0 && amm__MatchableAmount(orders[len(orders)-1], orders[len(orders)-1].Price) > 0, ite(orders[len(orders)-1].Direction == Buy, last(ob.buys, orders[len(orders)-1]), last(ob.sells, orders[len(orders)-1])))
  # the order just seen is now in the tick of its price on its side
  loop 0: imp(rangeindex >= 0 && amm__MatchableAmount(orders[rangeindex], orders[rangeindex].Price) > 0, ite(orders[rangeindex].Direction == Buy, last(ob.buys, orders[rangeindex]), last(ob.sells, orders[rangeindex])))
  loop 0: book(ob) && ob == at0(ob) && ordersok()
