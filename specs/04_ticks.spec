property C08
# istick(t, prec): t > 0 is a multiple of the gap of its decade (defined here, not by the code);
# t is an arbitrary price: postconditions that mention it hold for every t.
# A price has at most 96 digits (LegacyDec holds 315 bits), so the decades 0..95 are all of them.

func amm.PriceToDownTick as tickDown
  params price prec
  results r
  forall t
  requires price > 0
  split prec in 0..16
  split chr(price) in 0..95
  ensures tick: istick(r, prec)
  ensures notAbove: r <= price
  ensures greatest: imp(r < t && t <= price && istick(t, prec), false)
  ensures fixed: imp(istick(price, prec), r == price)

func amm.PriceToUpTick as tickUp
  option chunks 2
  params price prec
  results r
  forall t
  requires price > 0
  split prec in 0..16
  split chr(price) in 0..95
  ensures notBelow: r >= price
  ensures tick: istick(r, prec)
  ensures least: imp(price <= t && t < r && istick(t, prec), false)
  ensures fixed: imp(istick(price, prec), r == price)

func amm.UpTick as upTick
  option chunks 2
  params price prec
  results r
  forall t
  requires price > 0
  split prec in 0..16
  split chr(price) in 0..95
  ensures above: r > price
  ensures tick: istick(r, prec)
  ensures adjacent: imp(price < t && t < r && istick(t, prec), false)

func amm.DownTick as downTick
  option chunks 5
  params price prec
  results r
  forall t
  requires price > 1
  split prec in 0..16
  split chr(price) in 0..95
  ensures below: r < price && r > 0
  ensures tick: istick(r, prec)
  ensures adjacent: imp(r < t && t < price && istick(t, prec), false)

func amm.isPow10 as isPow10
  params x
  results r
  modular
  requires x < 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000
  ensures def: r == isp10(x)
  loop 0: b >= 1 && b <= x && isp10(b) == isp10(x)

# Closed form of the index: 9*10^prec ticks per decade.
func amm.TickToIndex as tickToIndex
  params price prec
  results i
  split prec in 0..16
  split chr(price) in 0..95
  requires price >= pow10(prec)
  ensures def: i == (digits(price) - 1 - prec) * 9 * pow10(prec) + price / pow10(digits(price) - 1 - prec) - pow10(prec)

lemma indexRoundTrip
  var t Dec
  var prec int
  split prec in 0..16
  split chr(t) in 0..95
  assume t >= pow10(prec) && istick(t, prec)
  call i := amm.TickToIndex(t, prec)
  call r := amm.TickFromIndex(i, prec)
  assert back: r == t
  assert nonneg: i >= 0

lemma indexStep
  var t Dec
  var prec int
  split prec in 0..16
  split chr(t) in 0..94
  assume t >= pow10(prec) && istick(t, prec)
  call u := amm.UpTick(t, prec)
  call i := amm.TickToIndex(t, prec)
  call j := amm.TickToIndex(u, prec)
  assert next: j == i + 1

func amm.RoundPrice as roundPrice
  option chunks 3
  params price prec
  results r
  forall t
  split prec in 0..16
  split chr(price) in 0..94
  requires price >= pow10(prec)
  ensures tick: istick(r, prec)
  ensures near: imp(price < t && t < r && istick(t, prec), false) && imp(r < t && t < price && istick(t, prec), false)
  ensures fixed: imp(istick(price, prec), r == price)

func amm.TickGap as tickGap
  params price prec
  results r
  split prec in 0..16
  split chr(price) in 0..95
  requires price >= pow10(prec)
  ensures gap: r == pow10(digits(price) - 1 - prec)
