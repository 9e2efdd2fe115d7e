----------------------------- MODULE AtomShard -----------------------------
(* A shard of the atomizer system: the unspent outputs of its range as of
   block s.h.  S.past[n] is the set as of block n (what a request that began
   at that height may still be answered from).
   Blocks are [h, txs], txs a sequence of [id, ins, outs].                   *)
EXTENDS Naturals, Sequences, FiniteSets

LOCAL Rng(q) == { q[i] : i \in DOMAIN q }
\* Output x has the prefix x % 256.
InRange(s, x) == s.lo <= x % 256 /\ x % 256 <= s.hi
SInit(lo, hi) == [lo |-> lo, hi |-> hi, h |-> 0, past |-> [n \in {0} |-> {}]]
Utxo(s) == s.past[s.h]

Apply(s, U, b) ==
  LET made == UNION { Rng(b.txs[i].outs) : i \in DOMAIN b.txs }
      gone == UNION { Rng(b.txs[i].ins) : i \in DOMAIN b.txs }
  IN { x \in (U \cup made) \ gone : InRange(s, x) }
SDigests(s, b) == b.h = s.h + 1
SBlock(s, b) ==
  IF ~SDigests(s, b) THEN s
  ELSE [s EXCEPT !.h = b.h,
                 !.past = [n \in DOMAIN @ \cup {b.h} |-> IF n = b.h THEN Apply(s, Utxo(s), b) ELSE @[n]]]
RECURSIVE SBlocks(_, _)
SBlocks(s, q) == IF q = << >> THEN s ELSE SBlocks(SBlock(s, Head(q)), Tail(q))

\* The answer for a transaction with inputs ins, as of height n.
SAnswer(s, ins, n) ==
  LET mine == { i \in DOMAIN ins : InRange(s, ins[i]) }
      dne  == { ins[i] : i \in { j \in mine : ins[j] \notin s.past[n] } }
  IN IF n = 0 THEN [k |-> "sync", h |-> 0, at |-> {}]
     ELSE IF ins = << >> THEN [k |-> "dne", h |-> 0, at |-> {}]
     ELSE IF dne # {} THEN [k |-> "dne", h |-> 0, at |-> dne]
     ELSE [k |-> "ok", h |-> n, at |-> { i - 1 : i \in mine }]
=============================================================================
