----------------------------- MODULE TraceLedger -----------------------------
(* Validates executions of real brokers and shards against Ledger.           *)
EXTENDS Ledger, TraceLib

VARIABLES st, l, bad
vars == <<st, l, bad>>

Before(e) == CASE e.ev = "commit" -> Wants(st, e.t, e.u)
               [] e.ev = "crash"  -> Stop(st, e.b)
               [] OTHER -> st

Extra(s2, e) ==
  CASE e.ev = "settled" -> IF e.stuck = "" THEN "" ELSE "stuck-" \o e.stuck
    [] e.ev = "audit" -> IF Len(e.left) = 0 THEN "" ELSE "left-locks"
    [] e.ev = "final" -> IF \E k \in LKey : e.v[k] < 0 THEN "left-locks"
                         ELSE IF \A k \in LKey : e.v[k] = s2.db[k] THEN "" ELSE "ledger"
    [] OTHER -> ""

Init == st = L0 /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN st' = L0 /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<st, bad>>
     ELSE IF e.ev = "hang" \/ (e.ev = "crash" /\ "rc" \in DOMAIN e)
     THEN bad' = e.ev /\ UNCHANGED st /\ Report(l, e.ev, e)
     ELSE LET r == ObserveAll(Before(e), e.items)
              v == IF r.bad # "" THEN r.bad ELSE Extra(r.st, e)
          IN /\ st' = r.st
             /\ bad' = v
             /\ (v # "" => Report(l, v, e))
Spec == Init /\ [][Next]_vars
=============================================================================
