# Shared definitions.  Decimals are integers scaled by P = 10^18.
define isBuy(d) = d == Buy
define isSell(d) = d == Sell
# exact ceil/trunc of a scaled product price*amt to whole coins
define isCeilQ(q, p, a) = q*P >= p*a && (q-1)*P < p*a
define isFloorQ(q, p, a) = q*P <= p*a && (q+1)*P > p*a
