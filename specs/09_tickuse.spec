property C09
# what placing an order uses of the tick functions (their tightness is C08's)
func amm.PriceToDownTick as tickDownUse
  option scoped
  option chunks 2
  params price prec
  results r
  pure price, prec
  split prec in 0..16
  split chr(price) in 0..95
  ensures notAbove: imp(price > 0, 0 <= r && r <= price)

func amm.PriceToUpTick as tickUpUse
  option scoped
  option chunks 2
  params price prec
  results r
  pure price, prec
  split prec in 0..16
  split chr(price) in 0..95
  ensures notBelow: imp(price > 0, r >= price)
