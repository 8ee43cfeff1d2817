property C19

# what one queued transfer does to the balance of account a in denomination d
define delta(t, a, d) = ite(t.to == a, amt(t.amt, d), 0) - ite(t.from == a, amt(t.amt, d), 0)

func (*types.BulkSendCoinsOperation).Run as bulkRun
  params op ctx bank
  results err
  requires all(i, 0, len(op.txs), op.txs[i] != nil)
  forall a d
  ensures moved: imp(isnil(err), bal(a, d) == old(bal(a, d)) + psum(t, op.txs, len(op.txs), delta(t, a, d)))
  ensures only: onlychanges("$bal")
  loop 0: bal(a, d) == old(bal(a, d)) + psum(t, op.txs, rangeindex+1, delta(t, a, d))
  ensures cover1: isnil(err) && len(op.txs) > 1
  ensures cover2: !isnil(err)

# the queue holds one entry for each sender and receiver, and the set finds it
define ekey(t) = tup(bech32(t.from), bech32(t.to))
define queueok(op) = op.txSet != nil && len(op.txSet) == len(op.txs) && \
  all(i, 0, len(op.txs), op.txs[i] != nil && inmap(op.txSet, ekey(op.txs[i])) && op.txSet[ekey(op.txs[i])] == op.txs[i])
define entryok(op, f, t) = imp(inmap(op.txSet, tup(f, t)), op.txSet[tup(f, t)] != nil && bech32(op.txSet[tup(f, t)].from) == f && bech32(op.txSet[tup(f, t)].to) == t)
define queued(op, f, t, d) = ite(inmap(op.txSet, tup(f, t)), amt(op.txSet[tup(f, t)].amt, d), 0)

func (*types.BulkSendCoinsOperation).QueueSendCoins as bulkQueue
  params op from to cs
  forall f t d
  requires queueok(op)
  requires entryok(op, f, t)
  requires entryok(op, bech32(from), bech32(to))
  ensures entry: entryok(op, f, t)
  ensures sum: queued(op, f, t, d) == old(queued(op, f, t, d)) + ite(bech32(from) == f && bech32(to) == t && validcoins(cs), amt(cs, d), 0)
  ensures ok: queueok(op)
  ensures cover1: len(op.txs) > old(len(op.txs))
  ensures cover2: len(op.txs) == old(len(op.txs)) && len(op.txs) > 0
