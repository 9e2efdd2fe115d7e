------------------------------ MODULE TraceRLS ------------------------------
(* Validates executions recorded from the real shard against RLS.           *)
EXTENDS RLS, TraceLib

VARIABLES s, l, bad
vars == <<s, l, bad>>

Upd(us) == [k \in Key |-> IF \E i \in DOMAIN us : us[i][1] = k
                          THEN us[CHOOSE i \in DOMAIN us : us[i][1] = k][2]
                          ELSE NoUpd]

Apply(e) ==
  CASE e.ev = "lock"     -> TryLock(s, e.t, e.b, e.k, e.ty, e.first = 1)
    [] e.ev = "prepare"  -> Prepare(s, e.t, Upd(e.u))
    [] e.ev = "commit"   -> Commit(s, e.t)
    [] e.ev = "rollback" -> Rollback(s, e.t)
    [] e.ev = "finish"   -> Finish(s, e.t)
    [] e.ev = "tickets"  -> [s |-> s, res |-> "ok", cbs |-> {}]
    [] OTHER             -> [s |-> s, res |-> "crash", cbs |-> {}]

\* Would this observed grant coexist with an incompatible lock the model still
\* has another ticket holding?
Clashes(st, c, ty) ==
  \E u \in Tk \ {c[1]} : \/ st.wr[c[2]] = u
                         \/ ty = "w" /\ u \in st.rd[c[2]]

Norm(c) == IF c[3] = "wounded" THEN <<c[1], c[2], "w", c[4], c[5]>> ELSE c

Verdict(e, r) ==
  LET obs == { Norm(e.cbs[i]) : i \in DOMAIN e.cbs }
      x   == { Norm(c) : c \in r.cbs }
      G(S) == { c \in S : c[3] = "g" }
      GK(S) == { <<c[1], c[2]>> : c \in G(S) }
      W(S) == { c \in S : c[3] = "w" }
      WK(S) == { <<c[1], c[2]>> : c \in W(S) }
      ExtraG == { c \in G(obs) : <<c[1], c[2]>> \notin GK(x) }
      ReqTy(c) == IF e.ev = "lock" /\ e.t = c[1] /\ e.k = c[2] THEN e.ty
                  ELSE s.q[c[2]][c[1]]
  IN CASE e.ev \in {"crash", "hang"} -> e.ev
       [] e.ev = "tickets" ->
            IF { <<e.tks[i][1], e.tks[i][2]>> : i \in DOMAIN e.tks } = Tickets(s, e.t)
            THEN "" ELSE "tickets"
       [] Len(e.cbs) # Cardinality(obs) -> "answered-twice"
       [] e.res # r.res -> "result-" \o e.ev
       [] \E c \in ExtraG : Clashes(r.s, c, ReqTy(c)) -> "exclusion"
       [] ExtraG # {} -> "extra-grant"
       [] GK(x) \ GK(obs) # {} -> "missing-grant"
       [] WK(x) # WK(obs) -> "wound-reply"
       [] G(x) # G(obs) -> "granted-value"
       [] W(x) # W(obs) -> "wound-details"
       [] x # obs -> "refusal"
       [] ~(Exclusion(r.s) /\ HoldersLive(r.s)) -> "inv-exclusion"
       [] ~(WaitOnlyOlder(r.s) /\ NoNeedlessWait(r.s)) -> "inv-wait"
       [] OTHER -> ""

Init == s = Init0 /\ l = 1 /\ bad = ""

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN s' = Init0 /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<s, bad>>
     ELSE LET r == Apply(e)
              v == Verdict(e, r)
          IN /\ s' = r.s
             /\ bad' = v
             /\ (v # "" => Report(l, v, r))

Spec == Init /\ [][Next]_vars
=============================================================================
