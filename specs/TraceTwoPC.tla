----------------------------- MODULE TraceTwoPC -----------------------------
(* Validates executions recorded from the real coordinator and shards.  What
   the coordinator gives to its log and sends to shards must be what TwoPC
   allows in that state; what shards answer and report must be what LShard
   computes.                                                                 *)
EXTENDS TwoPC, TraceLib

VARIABLES c,      \* the TwoPC state, batches added as they appear
          tx,     \* transaction number |-> [id, ins, outs]
          rq,     \* request |-> [t, st, d]: st "new", "batched", "refused", "answered"
          up,     \* a coordinator accepts requests
          open,   \* batches being run by the present coordinator
          cmds,   \* commands given to the log, not yet there: batch |-> record
          l, bad
vars == <<c, tx, rq, up, open, cmds, l, bad>>

Bool(q) == [i \in DOMAIN q |-> q[i] = 1]
C0(ns, k, seed) ==
  [ sh |-> [s \in 0..(ns - 1) |-> Shard0(ns, s, k, seed)],
    log |-> << >>, ack |-> << >>, seen |-> {}, gh |-> {} ]
C00 == C0(1, 1, {})

St(cc, t, r, u, o, m) == [c |-> cc, tx |-> t, rq |-> r, up |-> u, open |-> o, cmds |-> m]
Same == St(c, tx, rq, up, open, cmds)
Out(s, v) == [s |-> s, v |-> v]

\* A request is assigned to the batch that takes its transaction.
RECURSIVE Assign(_, _, _)
Assign(r, ts, d) ==
  IF ts = << >> THEN r
  ELSE LET C == { x \in DOMAIN r : r[x].t = Head(ts) /\ r[x].st = "new" }
       IN IF C = {} THEN Assign(r, Tail(ts), d)
          ELSE LET m == CHOOSE x \in C : \A y \in C : x <= y
               IN Assign([r EXCEPT ![m].st = "batched", ![m].d = d], Tail(ts), d)

Submit(e) ==
  Out([Same EXCEPT !.tx = Put(tx, e.t, [id |-> e.t, ins |-> e.ins, outs |-> e.outs]),
                   !.rq = Put(rq, e.r, [t |-> e.t, st |-> IF e.up = 1 THEN "new" ELSE "refused", d |-> 0])],
      "")

Rep(e) ==
  IF e.kind = "prepare" THEN
    LET newreqs == { x \in DOMAIN rq : rq[x].st = "new" }
        okay == /\ e.d \notin DOMAIN c.log
                /\ e.txs # << >>
                /\ \A i \in DOMAIN e.txs : \E x \in newreqs : rq[x].t = e.txs[i]
                /\ Cardinality(Range(e.txs)) = Len(e.txs)
    IN IF ~okay THEN Out(Same, "rep-prepare")
       ELSE Out([Same EXCEPT
                   !.c.log = Put(@, e.d, NoLog), !.c.ack = Put(@, e.d, << >>),
                   !.rq = Assign(@, e.txs, e.d),
                   !.open = @ \cup {e.d},
                   !.cmds = Put(@, e.d, [d |-> e.d, kind |-> "prepare", flags |-> << >>,
                                         txs |-> [i \in DOMAIN e.txs |-> tx[e.txs[i]]]])], "")
  ELSE
    LET known == e.d \in DOMAIN c.log
        R == IF known THEN { r \in Reps(c, e.d) : r.kind = e.kind } ELSE {}
    IN CASE ~known \/ e.d \in DOMAIN cmds -> Out(Same, "rep-" \o e.kind)
         [] R = {} -> Out(Same, "rep-" \o e.kind)
         [] e.kind = "commit" /\ ~(\E r \in R : r.flags = Bool(e.flags)) -> Out(Same, "flags")
         [] OTHER -> Out([Same EXCEPT !.cmds = Put(@, e.d, CHOOSE r \in R : TRUE)], "")

Send(e) ==
  LET M == IF e.d \in DOMAIN c.log
           THEN { m \in Sends(c, e.d) : m.s = e.s /\ m.kind = e.kind } ELSE {}
      okay == \E m \in M :
        /\ e.kind = "lock" => [i \in DOMAIN m.txs |-> m.txs[i].id] = e.txs
        /\ e.kind = "apply" => m.flags = Bool(e.flags)
      \* Discarding a batch a shard never saw is allowed: it has no effect.
      extra == /\ e.kind = "discard" /\ e.d \in DOMAIN c.log
               /\ c.log[e.d].ph = "discard" /\ e.s \notin Involved(c, e.d)
  IN IF okay \/ extra THEN Out(Same, "") ELSE Out(Same, "send-" \o e.kind)

Dlv(e) ==
  LET sh == c.sh[e.s]
      m  == CHOOSE m \in { [d |-> e.d, s |-> e.s, kind |-> e.kind,
                            txs |-> Sub(c.log[e.d].txs, Idx(c, e.d, e.s)),
                            flags |-> IF e.kind = "apply" THEN Sub(c.log[e.d].flags, Idx(c, e.d, e.s))
                                      ELSE << >>] } : TRUE
      again == \/ e.kind = "lock" /\ e.d \in DOMAIN sh.prep \cup DOMAIN sh.appl
               \/ e.kind # "lock" /\ e.d \notin DOMAIN sh.prep
      r  == Deliver(sh, m)
      c1 == [c EXCEPT !.sh[e.s] = r.sh]
      c2 == IF e.ack = 1 THEN [c1 EXCEPT !.ack[e.d] = Put(@, <<e.kind, e.s>>, r.res)] ELSE c1
      pre == IF again THEN "shard-again-" ELSE "shard-"
  IN Out([Same EXCEPT !.c = c2],
         CASE Bool(e.res) # r.res -> pre \o "lock"
           [] Range(e.un) # Unspent(r.sh) -> pre \o "unspent"
           [] Range(e.dn) # Range(r.sh.done) -> pre \o "completed"
           [] ~ShardInv(r.sh) -> "shard-inv"
           [] OTHER -> "")

Raft(e) ==
  IF e.d \notin DOMAIN cmds THEN Out(Same, "rep-" \o e.kind)
  ELSE LET c1 == Logged(c, cmds[e.d])
       IN Out([Same EXCEPT !.c = c1, !.cmds = Del(@, e.d)],
              IF e.kind = "commit" /\ ~NoDoubleSpend(c1, c1.seed) THEN "double-spend" ELSE "")

\* What may be answered for transaction t of batch d.
Verdict(d, t, res) ==
  LET ph == c.log[d].ph
      pos == CHOOSE i \in DOMAIN c.log[d].txs : c.log[d].txs[i].id = t
  IN IF ph \notin {"commit", "discard", "done"} THEN "reply-early"
     ELSE IF (res = "yes") # c.log[d].flags[pos] THEN "reply-wrong"
     ELSE IF \E s \in Involved(c, d) : d \in DOMAIN c.sh[s].prep THEN "reply-early"
     ELSE ""

\* Requests for the same transaction are interchangeable: which of them went
\* into which batch is seen only when they are answered.
Reply(e) ==
  IF e.r \notin DOMAIN rq \/ rq[e.r].st = "answered" THEN Out(Same, "reply-twice")
  ELSE
  LET r  == rq[e.r]
      s1 == [Same EXCEPT !.rq[e.r].st = "answered"]
      X  == { x \in DOMAIN rq : rq[x].t = r.t /\ rq[x].st = "batched"
                               /\ Verdict(rq[x].d, r.t, e.res) = "" }
      x0 == IF e.r \in X THEN e.r ELSE CHOOSE x \in X : TRUE
      s2 == [Same EXCEPT !.rq = [[@ EXCEPT ![x0] = r] EXCEPT ![e.r] = [rq[x0] EXCEPT !.st = "answered"]]]
  IN CASE e.res = "none" ->
            Out(s1, IF ~up \/ r.st = "refused" THEN ""
                    ELSE IF r.st = "new" /\ \E x \in DOMAIN rq : x # e.r /\ rq[x].t = r.t /\ rq[x].st # "refused"
                         THEN "" ELSE "reply-none")
       [] e.res \in {"yes", "no"} ->
            IF r.st = "refused" THEN Out(s1, "reply-early")
            ELSE IF X # {} THEN Out(s2, "")
            ELSE Out(s1, IF r.st # "batched" THEN "reply-early" ELSE Verdict(r.d, r.t, e.res))
       [] OTHER -> Out(s1, "reply-garbled")

Stop(e) ==
  LET RECURSIVE All(_, _)
      All(cc, q) == IF q = << >> THEN cc
                    ELSE All(IF Head(q) \in DOMAIN cmds THEN Logged(cc, cmds[Head(q)]) ELSE cc, Tail(q))
      c1 == All(c, e.kept)
      \* A batch whose first command was lost never existed; its requests are
      \* answered without a result.
  IN Out([Same EXCEPT !.c = c1, !.up = FALSE, !.cmds = << >>, !.open = {}], "")

TakeOver ==
  Out([Same EXCEPT !.c = Takeover(c), !.up = TRUE,
                   !.rq = [x \in DOMAIN rq |-> IF rq[x].st # "answered" THEN [rq[x] EXCEPT !.st = "answered"] ELSE rq[x]]],
      "")

All(f(_)) == UNION { f(c.sh[s]) : s \in DOMAIN c.sh }
Query(e) ==
  CASE Range(e.un) # All(Unspent) -> "query-unspent"
    [] Range(e.dn) # All(LAMBDA sh : Range(sh.done)) -> "query-completed"
    [] e.none # 0 -> "query-refused"
    [] OTHER -> ""
Started == { d \in DOMAIN c.log : c.log[d].ph # "none" }
Settled(e) ==
  CASE e.left # 0 -> "settle-busy"
    [] \E d \in Started : c.log[d].ph # "done" -> "settle-unfinished"
    [] \E x \in DOMAIN rq : rq[x].st \notin {"answered", "refused"} -> "settle-unanswered"
    [] ~Final([c EXCEPT !.log = [d \in Started |-> c.log[d]]], c.seed) -> "final-state"
    [] OTHER -> Query(e)

Step(e) ==
  CASE e.ev = "submit"   -> Submit(e)
    [] e.ev = "rep"      -> Rep(e)
    [] e.ev = "send"     -> Send(e)
    [] e.ev = "del"      -> Dlv(e)
    [] e.ev = "raft"     -> Raft(e)
    [] e.ev = "reply"    -> Reply(e)
    [] e.ev = "stop"     -> Stop(e)
    [] e.ev = "takeover" -> TakeOver
    [] e.ev = "query"    -> Out(Same, Query(e))
    [] e.ev = "settled"  -> Out(Same, Settled(e))
    [] e.ev = "drop"     -> Out(Same, "")
    [] OTHER             -> Out(Same, e.ev)

Init == /\ c = C00 /\ tx = << >> /\ rq = << >> /\ up = TRUE /\ open = {} /\ cmds = << >>
        /\ l = 1 /\ bad = ""

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN /\ c' = [seed |-> Range(e.seed)] @@ C0(e.ns, e.k, Range(e.seed))
          /\ tx' = << >> /\ rq' = << >> /\ up' = TRUE /\ open' = {} /\ cmds' = << >> /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<c, tx, rq, up, open, cmds, bad>>
     ELSE LET o == Step(e)
          IN /\ c' = o.s.c /\ tx' = o.s.tx /\ rq' = o.s.rq /\ up' = o.s.up
             /\ open' = o.s.open /\ cmds' = o.s.cmds
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))

Spec == Init /\ [][Next]_vars
=============================================================================
