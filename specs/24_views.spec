property C18
# the parts of a combined view are unknown: any order book view, pool or combined view

func (amm.MultipleOrderViews).BuyAmountOver as multiBuy
  params views price inclusive
  results r
  option abstract amm.OrderView
  ensures sum: r == psum(v, views, len(views), callm("BuyAmountOver", 0, v, price, inclusive))
  loop 0: amt == psum(v, views, rangeindex+1, callm("BuyAmountOver", 0, v, price, inclusive))

func (amm.MultipleOrderViews).SellAmountUnder as multiSell
  params views price inclusive
  results r
  option abstract amm.OrderView
  ensures sum: r == psum(v, views, len(views), callm("SellAmountUnder", 0, v, price, inclusive))
  loop 0: amt == psum(v, views, rangeindex+1, callm("SellAmountUnder", 0, v, price, inclusive))

func (amm.MultipleOrderViews).HighestBuyPrice as multiHighest
  params views
  results p found
  option abstract amm.OrderView
  requires all(i, 0, len(views), imp(callm("HighestBuyPrice", 1, views[i]), !isnil(callm("HighestBuyPrice", 0, views[i]))))
  ensures none: imp(!found, all(i, 0, len(views), !callm("HighestBuyPrice", 1, views[i])))
  ensures best: imp(found, all(i, 0, len(views), imp(callm("HighestBuyPrice", 1, views[i]), callm("HighestBuyPrice", 0, views[i]) <= p)))
  ensures from: imp(found, !all(i, 0, len(views), !(callm("HighestBuyPrice", 1, views[i]) && callm("HighestBuyPrice", 0, views[i]) == p)))
  ensures coverNone: !found
  ensures coverFound: found
  loop 0: found == !isnil(price)
  loop 0: imp(!found, all(i, 0, rangeindex+1, !callm("HighestBuyPrice", 1, views[i])))
  loop 0: imp(found, all(i, 0, rangeindex+1, imp(callm("HighestBuyPrice", 1, views[i]), callm("HighestBuyPrice", 0, views[i]) <= price)))
  loop 0: imp(found, !all(i, 0, rangeindex+1, !(callm("HighestBuyPrice", 1, views[i]) && callm("HighestBuyPrice", 0, views[i]) == price)))

func (amm.MultipleOrderViews).LowestSellPrice as multiLowest
  params views
  results p found
  option abstract amm.OrderView
  requires all(i, 0, len(views), imp(callm("LowestSellPrice", 1, views[i]), !isnil(callm("LowestSellPrice", 0, views[i]))))
  ensures none: imp(!found, all(i, 0, len(views), !callm("LowestSellPrice", 1, views[i])))
  ensures best: imp(found, all(i, 0, len(views), imp(callm("LowestSellPrice", 1, views[i]), callm("LowestSellPrice", 0, views[i]) >= p)))
  ensures from: imp(found, !all(i, 0, len(views), !(callm("LowestSellPrice", 1, views[i]) && callm("LowestSellPrice", 0, views[i]) == p)))
  ensures coverNone: !found
  ensures coverFound: found
  loop 0: found == !isnil(price)
  loop 0: imp(!found, all(i, 0, rangeindex+1, !callm("LowestSellPrice", 1, views[i])))
  loop 0: imp(found, all(i, 0, rangeindex+1, imp(callm("LowestSellPrice", 1, views[i]), callm("LowestSellPrice", 0, views[i]) >= price)))
  loop 0: imp(found, !all(i, 0, rangeindex+1, !(callm("LowestSellPrice", 1, views[i]) && callm("LowestSellPrice", 0, views[i]) == price)))
