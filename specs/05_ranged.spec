property C17
# Prices are scaled by P = 10^18; minPrice 10^-15 and maxPrice 10^20 are the permitted bounds.

define okRange(m, l, p) = p > 0 && m >= 1000 && l > m && l <= 100000000000000000000*P && p >= m && p <= l

func amm.ValidateRangedPoolParams as validateRanged
  params minPrice maxPrice initialPrice
  results err
  modular
  ensures refused: imp(isnil(err), okRange(minPrice, maxPrice, initialPrice) && (maxPrice - minPrice) * P * 2 + minPrice >= 2 * minPrice * 1000000000000000)
  ensures accepted: imp(okRange(minPrice, maxPrice, initialPrice) && (maxPrice - minPrice) * 1000 >= minPrice, isnil(err))

func amm.DeriveTranslation as deriveTranslation
  params rx ry minPrice maxPrice
  results transX transY
  modular
  ensures any: true

func amm.InitialPoolCoinSupply as initialSupply
  params x y
  results ps
  modular
  ensures pos: ps >= 1

func amm.CreateRangedPool as createRanged
  params x y minPrice maxPrice initialPrice
  results pool err
  timeout 60
  requires x >= 0 && y >= 0
  ensures something: imp(isnil(err), x > 0 || y > 0)
  ensures permitted: imp(isnil(err), okRange(minPrice, maxPrice, initialPrice))
  ensures takesBase: imp(isnil(err), pool.ry <= y)
  ensures full: imp(isnil(err), pool.rx == x || pool.ry == y)
  ensures bottom: imp(isnil(err) && initialPrice == minPrice, pool.rx == 0 && pool.ry == y)
  ensures top: imp(isnil(err) && initialPrice == maxPrice, pool.rx == x && pool.ry == 0)
  ensures range: imp(isnil(err), pool.minPrice == minPrice && pool.maxPrice == maxPrice)
  ensures takesQuote: imp(isnil(err), pool.rx <= x)
  ensures coverNormal: isnil(err) && pool.rx > 0 && pool.ry > 0

func amm.CreateBasicPool as createBasic
  params rx ry
  results pool err
  requires rx >= 0 && ry >= 0
  ensures nonzero: imp(isnil(err), rx > 0 && ry > 0)
  ensures balances: imp(isnil(err), pool.rx == rx && pool.ry == ry && pool.ps >= 1)
  ensures price: imp(isnil(err), 2*rx*P >= 1999*ry && rx*1 <= ry*100000000000000000000 + ry)
  ensures accepted: imp(rx > 0 && ry > 0 && rx*P >= 1000*ry && rx <= 100000000000000000000*ry, isnil(err))
