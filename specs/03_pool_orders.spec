property C07
# Pools: amounts offered never exceed the reserves, nor beat the pool's own price.

define okRanged(p) = p.rx >= 0 && p.ry >= 0 && p.transX >= 0 && p.transY >= 0 && p.minPrice >= 1000 && p.minPrice < p.maxPrice && p.maxPrice <= 100000000000000000000*P && \
    p.xComp == p.rx*P + p.transX && p.yComp == p.ry*P + p.transY

func (*amm.BasicPool).Price as basicPrice
  params pool
  results r
  merge
  requires pool.rx >= 0 && pool.ry >= 0
  ensures pos: r >= 0
  ensures defined: pool.rx > 0 && pool.ry > 0

func (*amm.RangedPool).Price as rangedPrice
  params pool
  results r
  merge
  requires okRanged(pool)
  ensures pos: r >= 0

func (*amm.BasicPool).BuyAmountOver as basicBuyOver
  params pool price incl
  results r
  timeout 40
  requires pool.rx >= 0 && pool.ry >= 0 && price > 0
  ensures nonneg: r >= 0
  ensures reserve: price*r <= pool.rx*P
  ensures product: (pool.rx*P - price*r)*(pool.ry + r) >= pool.rx*P*pool.ry
  ensures coverPos: r > 0

func (*amm.BasicPool).BuyAmountOver as basicBuyOverPrice
  params pool price incl
  results r
  requires pool.rx >= 0 && pool.ry >= 0 && price > 0
  ensures noneAbove: imp(price >= bprice(pool) && price >= 1000, r == 0)

func (*amm.BasicPool).SellAmountUnder as basicSellUnder
  params pool price incl
  results r
  timeout 40
  requires pool.rx >= 0 && pool.ry >= 0 && price > 0
  ensures nonneg: r >= 0
  ensures reserve: r <= pool.ry
  ensures product: imp(price <= P*P, (pool.rx*P + price*r)*(pool.ry - r) >= pool.rx*P*pool.ry)
  # every tick above 10^18 is a multiple of 10^-16
  ensures productTick: imp(price > P*P && price == 100*(price/100), r == 0 || (price/100)*(pool.ry - r) >= pool.rx*10000000000000000)
  ensures coverPos: r > 0

func (*amm.BasicPool).SellAmountUnder as basicSellUnderPrice
  params pool price incl
  results r
  requires pool.rx >= 0 && pool.ry >= 0 && price > 0
  ensures noneBelow: imp(pool.rx > 0 && pool.ry > 0 && price <= bprice(pool), r == 0)

define bprice(p) = callfn("(*amm.BasicPool).Price", p)
define rprice(p) = callfn("(*amm.RangedPool).Price", p)

func (*amm.RangedPool).BuyAmountOver as rangedBuyOver
  params pool price incl
  results r
  requires okRanged(pool) && price > 0
  ensures nonneg: r >= 0
  ensures reserve: price*r <= pool.rx*P
  ensures range: imp(price >= pool.maxPrice && pool.xComp*P <= pool.maxPrice*pool.yComp, r == 0)
  ensures coverPos: r > 0

func (*amm.RangedPool).SellAmountUnder as rangedSellUnder
  params pool price incl
  results r
  requires okRanged(pool) && price > 0
  ensures nonneg: r >= 0
  ensures reserve: r <= pool.ry
  ensures coverPos: r > 0

func (*amm.RangedPool).BuyAmountTo as rangedBuyTo
  params pool price incl
  results r
  requires okRanged(pool) && price > 0
  ensures nonneg: r >= 0
  ensures reserve: price*r <= pool.rx*P
  ensures coverPos: r > 0

func (*amm.RangedPool).SellAmountTo as rangedSellTo
  params pool price incl
  results r
  requires okRanged(pool) && price > 0
  ensures nonneg: r >= 0
  ensures reserve: r <= pool.ry
  ensures coverPos: r > 0

func (*amm.BasicPool).BuyAmountTo as basicBuyTo
  params pool price
  results r
  requires pool.rx >= 0 && pool.ry >= 0 && price > 0
  ensures nonneg: r >= 0
  ensures reserve: price*r <= pool.rx*P
  ensures coverPos: r > 0

func (*amm.BasicPool).SellAmountTo as basicSellTo
  params pool price
  results r
  requires pool.rx >= 0 && pool.ry >= 0 && price > 0
  ensures nonneg: r >= 0
  ensures reserve: r <= pool.ry
  ensures coverPos: r > 0

func (*amm.BasicPool).BuyAmountTo as basicBuyToPrice
  params pool price
  results r
  requires pool.rx > 0 && pool.ry > 0 && price > 0
  ensures noneAbove: imp(price >= bprice(pool) && price >= 1000, r == 0)

func (*amm.BasicPool).SellAmountTo as basicSellToPrice
  params pool price
  results r
  requires pool.rx > 0 && pool.ry > 0 && price > 0
  ensures noneBelow: imp(price <= bprice(pool), r == 0)

func (*amm.RangedPool).BuyAmountOver as rangedBuyOverPrice
  params pool price incl
  results r
  requires okRanged(pool) && price > 0 && (pool.rx > 0 || pool.ry > 0)
  ensures noneAbove: imp(price >= rprice(pool), r == 0)
  ensures noneUnder: imp(rprice(pool) <= pool.minPrice, r == 0)

func (*amm.RangedPool).SellAmountUnder as rangedSellUnderPrice
  params pool price incl
  results r
  requires okRanged(pool) && price > 0 && (pool.rx > 0 || pool.ry > 0)
  ensures noneBelow: imp(price <= rprice(pool), r == 0)
  ensures noneOver: imp(rprice(pool) >= pool.maxPrice, r == 0)

func (*amm.RangedPool).BuyAmountTo as rangedBuyToPrice
  params pool price incl
  results r
  requires okRanged(pool) && price > 0 && (pool.rx > 0 || pool.ry > 0)
  ensures noneAbove: imp(price >= rprice(pool), r == 0)
  ensures noneUnder: imp(rprice(pool) <= pool.minPrice, r == 0)

func (*amm.RangedPool).SellAmountTo as rangedSellToPrice
  params pool price incl
  results r
  requires okRanged(pool) && price > 0 && (pool.rx > 0 || pool.ry > 0)
  ensures noneBelow: imp(price <= rprice(pool), r == 0)
  ensures noneOver: imp(rprice(pool) >= pool.maxPrice, r == 0)
