----------------------------- MODULE TraceRLSF -----------------------------
(* Validates executions recorded from the real replicated shard.            *)
EXTENDS RLSF, TraceLib

VARIABLES f, l, bad
vars == <<f, l, bad>>

Upd(us) == [k \in Key |-> IF \E i \in DOMAIN us : us[i][1] = k
                          THEN us[CHOOSE i \in DOMAIN us : us[i][1] = k][2]
                          ELSE NoUpd]

Apply(e) ==
  CASE e.ev = "lock"     -> FLock(f, e.t, e.b, e.k, e.ty, e.first = 1)
    [] e.ev = "prepare"  -> FPrepare(f, e.t, e.b, Upd(e.u))
    [] e.ev = "commit"   -> FCommit(f, e.t)
    [] e.ev = "rollback" -> FRollback(f, e.t)
    [] e.ev = "finish"   -> FFinish(f, e.t)
    [] e.ev = "apply"    -> IF f.pend = << >> THEN FRes(f, {}, {}) ELSE FApply(f)
    [] e.ev = "crash"    -> IF "n" \in DOMAIN e THEN FCrash(f, e.n) ELSE FRes(f, {}, {})
    [] OTHER             -> FRes(f, {}, {})

Norm(c) == IF c[3] = "wounded" THEN <<c[1], c[2], "w", c[4], c[5]>> ELSE c

Verdict(e, r) ==
  IF e.ev = "hang" \/ (e.ev = "crash" /\ "n" \notin DOMAIN e) THEN e.ev
  ELSE
  LET obs  == { Norm(e.cbs[i]) : i \in DOMAIN e.cbs }
      x    == { Norm(c) : c \in r.cbs }
      reps == { e.reps[i] : i \in DOMAIN e.reps }
  IN CASE Len(e.cbs) # Cardinality(obs) -> "answered-twice"
       [] e.ev = "tickets" ->
            IF { <<e.tks[i][1], e.tks[i][2]>> : i \in DOMAIN e.tks } = Tickets(f.imp, e.t)
            THEN "" ELSE "tickets"
       [] e.ev = "apply" /\ (e.any = 1) # (f.pend # << >>) -> "replication"
       [] reps # r.reps -> "reply-" \o e.ev
       [] { c \in obs : c[3] = "g" } # { c \in x : c[3] = "g" } -> "lock-grant"
       [] obs # x -> "lock-refusal"
       [] ~(ValAgree(r.s) /\ PreparedDisjoint(r.s)) -> "inv"
       [] OTHER -> ""

Init == f = FInit /\ l = 1 /\ bad = ""

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN f' = FInit /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<f, bad>>
     ELSE LET r == Apply(e)
              v == Verdict(e, r)
          IN /\ f' = r.s
             /\ bad' = v
             /\ (v # "" => Report(l, v, r))

Spec == Init /\ [][Next]_vars
=============================================================================
