property C04

func amm.Deposit as deposit
  params rx ry ps x y
  results ax ay pc
  modular
  timeout 60
  requires rx >= 0 && ry >= 0 && ps > 0 && x >= 0 && y >= 0
  requires rx > 0 || ry > 0
  ensures nonneg: ax >= 0 && ay >= 0 && pc >= 0
  ensures accepted: ax <= x && ay <= y
  ensures shareX: pc*rx <= ps*x
  ensures shareY: pc*ry <= ps*y
  ensures fairX: rx*pc <= ax*ps
  ensures fairY: ry*pc <= ay*ps
  ensures coverMint: pc > 0 && ax > 0 && ay > 0
  ensures coverOne: pc > 0 && ax > 0 && ay == 0

property C05

func amm.Withdraw as withdraw
  params rx ry ps pc feeRate
  results x y
  modular
  requires rx >= 0 && ry >= 0 && ps > 0 && pc >= 0 && pc <= ps
  requires feeRate >= 0 && feeRate <= P
  ensures nonneg: x >= 0 && y >= 0
  ensures reserve: x <= rx && y <= ry
  ensures proRataX: imp(pc != ps, x*ps*P <= rx*pc*(P - feeRate))
  ensures proRataY: imp(pc != ps, y*ps*P <= ry*pc*(P - feeRate))
  ensures all: imp(pc == ps, x == rx && y == ry)
  ensures coverPay: x > 0 && y > 0 && pc < ps
