------------------------------- MODULE LShard -------------------------------
(* One shard of the two-phase-commit UHS: the set of unspent output ids it
   owns, the ids locked by prepared batches, the batches in progress and the
   log of completed transactions.  Ids are numbers; shard i of ns owns the ids
   that are i modulo ns.  A transaction is [id, ins, outs].                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(q) == { q[i] : i \in DOMAIN q }

Shard0(ns, i, k, seed) ==
  [ ns |-> ns, i |-> i, k |-> k,
    uhs    |-> { x \in seed : x % ns = i },
    locked |-> {},
    prep   |-> << >>,       \* batch |-> [txs, res]
    appl   |-> << >>,       \* batch |-> res: applied, not yet discarded
    done   |-> << >> ]      \* completed transactions, oldest first, at most k

Own(sh, x)   == x % sh.ns = sh.i
OwnOf(sh, q) == { x \in Range(q) : Own(sh, x) }
Relevant(sh, tx) == Own(sh, tx.id) \/ OwnOf(sh, tx.ins) # {} \/ OwnOf(sh, tx.outs) # {}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

RECURSIVE LockTxs(_, _, _, _)
LockTxs(sh, txs, n, res) ==
  IF n > Len(txs) THEN [sh |-> sh, res |-> res]
  ELSE LET mine == OwnOf(sh, txs[n].ins)
       IN IF mine \subseteq sh.uhs
          THEN LockTxs([sh EXCEPT !.uhs = @ \ mine, !.locked = @ \cup mine], txs, n + 1,
                       Append(res, TRUE))
          ELSE LockTxs(sh, txs, n + 1, Append(res, FALSE))

\* Lock: all inputs of a transaction or none; repeated: the same answer again.
SLock(sh, d, txs) ==
  IF d \in DOMAIN sh.prep THEN [sh |-> sh, res |-> sh.prep[d].res]
  ELSE IF d \in DOMAIN sh.appl THEN [sh |-> sh, res |-> sh.appl[d]]
  ELSE LET r == LockTxs(sh, txs, 1, << >>)
       IN [sh |-> [r.sh EXCEPT !.prep = Put(@, d, [txs |-> txs, res |-> r.res])],
           res |-> r.res]

RECURSIVE Remember(_, _, _)
Remember(q, xs, k) ==
  IF xs = << >> THEN q
  ELSE LET x == Head(xs)
           a == IF x \in Range(q) THEN q ELSE Append(q, x)
       IN Remember(IF Len(a) > k THEN Tail(a) ELSE a, Tail(xs), k)

\* Apply: a completed transaction's outputs appear and its inputs disappear, an
\* aborted one gives back what it had locked.
SApply(sh, d, flags) ==
  IF d \notin DOMAIN sh.prep THEN sh
  ELSE
  LET p   == sh.prep[d]
      N   == DOMAIN p.txs
      had == UNION { OwnOf(sh, p.txs[i].ins) : i \in { j \in N : p.res[j] } }
      bck == UNION { OwnOf(sh, p.txs[i].ins) : i \in { j \in N : p.res[j] /\ ~flags[j] } }
      new == UNION { OwnOf(sh, p.txs[i].outs) : i \in { j \in N : flags[j] } }
      ids == [i \in N |-> IF flags[i] /\ Own(sh, p.txs[i].id) THEN p.txs[i].id ELSE 0]
  IN [sh EXCEPT !.uhs = @ \cup bck \cup new,
                !.locked = @ \ had,
                !.prep = Del(@, d),
                !.appl = Put(@, d, p.res),
                !.done = Remember(@, SelectSeq(ids, LAMBDA x : x # 0), sh.k)]

SDiscard(sh, d) == [sh EXCEPT !.appl = Del(@, d)]

Unspent(sh) == sh.uhs \cup sh.locked

\* What is locked is locked by exactly one transaction of a prepared batch.
ShardInv(sh) ==
  /\ sh.uhs \cap sh.locked = {}
  /\ \A x \in sh.locked :
       Cardinality({ <<d, i>> \in (DOMAIN sh.prep) \X (1..8) :
                       /\ i \in DOMAIN sh.prep[d].txs /\ sh.prep[d].res[i]
                       /\ x \in Range(sh.prep[d].txs[i].ins) }) = 1
=============================================================================
