property C16

# larger amount, then users (k = 0) before pools (k = 1), then lower id
define prio(a, ka, ia, b, kb, ib) = a > b || a == b && ite(ka == 0, kb == 1 || ia < ib, kb == 1 && ia < ib)
define kind(k) = k == 0 || k == 1


define rank(o) = ite(dynis(o, "types.UserOrder"), 0, 1)
define oid(o) = ite(dynis(o, "types.UserOrder"), as(o, "types.UserOrder").OrderId, as(o, "types.PoolOrder").PoolId)
define known(o) = dynis(o, "types.UserOrder") || dynis(o, "types.PoolOrder")

func (*types.UserOrder).HasPriority as userPriority
  params order other
  results r
  requires known(other)
  ensures r: r == prio(order.Amount, 0, order.OrderId, other.Amount, rank(other), oid(other))
  ensures cover: r && order.Amount == other.Amount

func (*types.PoolOrder).HasPriority as poolPriority
  params order other
  results r
  requires known(other)
  ensures r: r == prio(order.Amount, 1, order.PoolId, other.Amount, rank(other), oid(other))
  ensures cover: r && order.Amount == other.Amount

func (*amm.BaseOrder).HasPriority as basePriority
  params order other
  results r
  requires other != nil
  ensures r: r == (order.Amount > other.Amount)


lemma strictOrder
  var a int
  var b int
  var c int
  var ka int
  var kb int
  var kc int
  var ia int
  var ib int
  var ic int
  assume kind(ka) && kind(kb) && kind(kc)
  assert asymmetric: !(prio(a, ka, ia, b, kb, ib) && prio(b, kb, ib, a, ka, ia))
  assert transitive: imp(prio(a, ka, ia, b, kb, ib) && prio(b, kb, ib, c, kc, ic), prio(a, ka, ia, c, kc, ic))
  assert total: a == b && ka == kb && ia == ib || prio(a, ka, ia, b, kb, ib) || prio(b, kb, ib, a, ka, ia)
