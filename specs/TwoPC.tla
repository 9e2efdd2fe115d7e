-------------------------------- MODULE TwoPC --------------------------------
(* The two-phase-commit UHS: locking shards (LShard), and a coordinator whose
   progress of each batch is replicated in a log.  The coordinator's state is

     log[d]   phase of batch d in the replicated log ("none", "prepare",
              "commit", "discard", "done"), its transactions and decisions
     rep      commands given to the log and not yet committed
     ack[d]   what the shards have answered to the present coordinator
     seen     batches a recovered coordinator took over after their discard
     gh       messages of earlier coordinators still on their way

   The messages and commands a coordinator may produce are functions of this
   state: Wants.                                                             *)
EXTENDS LShard, TLC

NoLog == [ph |-> "none", txs |-> << >>, flags |-> << >>]

RECURSIVE Filter(_, _, _)
\* Indexes of the transactions of a batch that concern shard sh.
Filter(sh, txs, n) ==
  IF n > Len(txs) THEN << >>
  ELSE (IF Relevant(sh, txs[n]) THEN <<n>> ELSE << >>) \o Filter(sh, txs, n + 1)

Idx(c, d, s) == Filter(c.sh[s], c.log[d].txs, 1)
Involved(c, d) == { s \in DOMAIN c.sh : Idx(c, d, s) # << >> }
Sub(q, idx) == [i \in DOMAIN idx |-> q[idx[i]]]

Acked(c, d, kind, s) == <<kind, s>> \in DOMAIN c.ack[d]

\* A transaction is confirmed if all shards concerned locked its inputs.
Decision(c, d) ==
  [n \in DOMAIN c.log[d].txs |->
     \A s \in Involved(c, d) : \A i \in DOMAIN Idx(c, d, s) :
       Idx(c, d, s)[i] = n => c.ack[d][<<"lock", s>>][i]]

\* After recovery it is no longer known which shards a discard concerns.
DiscardTo(c, d) == IF d \in c.seen THEN DOMAIN c.sh ELSE Involved(c, d)

\* Messages to shards the coordinator may have outstanding for batch d.
Sends(c, d) ==
  CASE c.log[d].ph = "prepare" ->
         { [d |-> d, s |-> s, kind |-> "lock", txs |-> Sub(c.log[d].txs, Idx(c, d, s)), flags |-> << >>]
             : s \in { s \in Involved(c, d) : ~Acked(c, d, "lock", s) } }
    [] c.log[d].ph = "commit" ->
         { [d |-> d, s |-> s, kind |-> "apply", txs |-> << >>, flags |-> Sub(c.log[d].flags, Idx(c, d, s))]
             : s \in { s \in Involved(c, d) : ~Acked(c, d, "apply", s) } }
    [] c.log[d].ph = "discard" ->
         { [d |-> d, s |-> s, kind |-> "discard", txs |-> << >>, flags |-> << >>]
             : s \in { s \in DiscardTo(c, d) : ~Acked(c, d, "discard", s) } }
    [] OTHER -> {}

\* Shards that have to answer before the next phase is begun.
Waits(c, d, kind) == { s \in Involved(c, d) : ~Acked(c, d, kind, s) }

\* The command the coordinator may give to the log next.
Reps(c, d) ==
  CASE c.log[d].ph = "prepare" /\ Waits(c, d, "lock") = {} ->
         { [d |-> d, kind |-> "commit", flags |-> Decision(c, d)] }
    [] c.log[d].ph = "commit" /\ Waits(c, d, "apply") = {} ->
         { [d |-> d, kind |-> "discard", flags |-> << >>] }
    [] c.log[d].ph = "discard" /\ Waits(c, d, "discard") = {} ->
         { [d |-> d, kind |-> "done", flags |-> << >>] }
    [] OTHER -> {}

\* Delivery of a message to its shard.
Deliver(sh, m) ==
  CASE m.kind = "lock"  -> SLock(sh, m.d, m.txs)
    [] m.kind = "apply" -> [sh |-> SApply(sh, m.d, m.flags), res |-> << >>]
    [] OTHER            -> [sh |-> SDiscard(sh, m.d), res |-> << >>]

\* A command reaches the replicated log.
Logged(c, r) ==
  CASE r.kind = "prepare" -> [c EXCEPT !.log[r.d] = [ph |-> "prepare", txs |-> r.txs, flags |-> << >>]]
    [] r.kind = "commit"  -> [c EXCEPT !.log[r.d].ph = "commit", !.log[r.d].flags = r.flags]
    [] OTHER              -> [c EXCEPT !.log[r.d].ph = r.kind]

\* A coordinator takes over: it knows the log only.
Takeover(c) ==
  [c EXCEPT !.ack = [d \in DOMAIN c.log |-> << >>],
            !.seen = { d \in DOMAIN c.log : c.log[d].ph = "discard" }]

----------------------------------------------------------------------------
Confirmed(c) ==
  { <<d, i>> \in (DOMAIN c.log) \X (1..8) :
      c.log[d].ph \in {"commit", "discard", "done"} /\ i \in DOMAIN c.log[d].txs /\ c.log[d].flags[i] }
TxOf(c, p) == c.log[p[1]].txs[p[2]]

\* No output is spent by two confirmed transactions, none is spent that was
\* neither seeded nor created by a confirmed transaction.
NoDoubleSpend(c, seed) ==
  LET C == Confirmed(c) IN
  /\ \A p, q \in C : p # q => Range(TxOf(c, p).ins) \cap Range(TxOf(c, q).ins) = {}
  /\ \A p \in C : \A x \in Range(TxOf(c, p).ins) :
       x \in seed \/ \E q \in C : x \in Range(TxOf(c, q).outs)

\* When every batch is done the shards hold exactly what the confirmed
\* transactions left, and remember no batch.
Quiet(c) == \A d \in DOMAIN c.log : c.log[d].ph \in {"none", "done"}
Final(c, seed) ==
  LET C == Confirmed(c)
      alive == (seed \cup UNION { Range(TxOf(c, p).outs) : p \in C })
               \ UNION { Range(TxOf(c, p).ins) : p \in C }
  IN \A s \in DOMAIN c.sh :
       /\ c.sh[s].uhs = { x \in alive : Own(c.sh[s], x) }
       /\ c.sh[s].locked = {}
       /\ DOMAIN c.sh[s].prep = {}
       /\ DOMAIN c.sh[s].appl = {}
=============================================================================
