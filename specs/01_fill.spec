property C01

func amm.OfferCoinAmount as offerCoinAmount
  params dir price amt
  results r
  merge
  requires price > 0 && amt >= 0
  requires dir == Buy || dir == Sell
  ensures buyCeil: imp(dir == Buy, isCeilQ(r, price, amt))
  ensures sell: imp(dir == Sell, r == amt)
  ensures coverBuy: dir == Buy && r > amt && amt > 0

func amm.MatchableAmount as matchableAmount
  params order price
  results r
  pure order, order.Direction, order.OpenAmount, order.OfferCoinAmount, order.PaidOfferCoinAmount, price
  requires price > 0
  requires order.OpenAmount >= 0 && order.PaidOfferCoinAmount >= 0
  requires order.PaidOfferCoinAmount <= order.OfferCoinAmount
  requires order.Direction == Buy || order.Direction == Sell
  ensures range: 0 <= r && r <= order.OpenAmount
  ensures affordable: imp(order.Direction == Buy, price*r <= (order.OfferCoinAmount - order.PaidOfferCoinAmount)*P)
  ensures worth: imp(r > 0, price*r >= P)
  ensures coverPos: r > 0 && r < order.OpenAmount

func amm.FillOrder as fillOrder
  params order amt price
  results diff
  requires price > 0 && amt > 0
  requires order != nil && order.OpenAmount >= 0 && order.PaidOfferCoinAmount >= 0
  requires order.PaidOfferCoinAmount <= order.OfferCoinAmount
  requires order.Direction == Buy || order.Direction == Sell
  ensures open: order.OpenAmount == old(order.OpenAmount) - amt && order.OpenAmount >= 0
  ensures buy: imp(order.Direction == Buy, order.ReceivedDemandCoinAmount == old(order.ReceivedDemandCoinAmount) + amt && \
      isCeilQ(order.PaidOfferCoinAmount - old(order.PaidOfferCoinAmount), price, amt) && diff == order.PaidOfferCoinAmount - old(order.PaidOfferCoinAmount))
  ensures sell: imp(order.Direction == Sell, order.PaidOfferCoinAmount == old(order.PaidOfferCoinAmount) + amt && \
      isFloorQ(order.ReceivedDemandCoinAmount - old(order.ReceivedDemandCoinAmount), price, amt) && diff == -(order.ReceivedDemandCoinAmount - old(order.ReceivedDemandCoinAmount)))
  ensures escrowBuy: imp(order.Direction == Buy, order.PaidOfferCoinAmount <= order.OfferCoinAmount)
  ensures identity: order.Direction == old(order.Direction) && order.Amount == old(order.Amount) && order.Price == old(order.Price) && order.OfferCoinAmount == old(order.OfferCoinAmount)
  ensures coverBuy: order.Direction == Buy
  ensures coverSell: order.Direction == Sell
