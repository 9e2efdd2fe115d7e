----------------------------- MODULE TraceBroker -----------------------------
(* Validates executions of the real broker, on scripted shards, against Broker.
   Every event carries the requests made to shards (calls, numbered) and the
   results given to clients (cbs).                                           *)
EXTENDS Broker, TraceLib

VARIABLES b, pend, l, bad
vars == <<b, pend, l, bad>>

Pairs(x) == { <<x[i][1], x[i][2]>> : i \in DOMAIN x }
CallOf(x, id) == [kind |-> x.kind, s |-> x.s, t |-> x.t, k |-> x.k, ty |-> x.ty,
                  first |-> x.first = 1, u |-> Pairs(x.u), id |-> id]
Ids(e) == { e.calls[i].c : i \in DOMAIN e.calls }

Apply(e) ==
  LET obs == { <<e.calls[i].t, e.calls[i].s>> : i \in DOMAIN e.calls }
      dn  == { e.dn[i] : i \in DOMAIN e.dn }
  IN CASE e.ev = "begin"    -> Begin(b, e.id, e.t, e.hi, e.mode)
       [] e.ev = "lock"     -> Lock(b, e.id, e.t, e.k, e.ty, e.dir = 1, dn)
       [] e.ev = "commit"   -> BCommit(b, e.id, e.t, Pairs(e.u), dn, obs)
       [] e.ev = "finish"   -> BFinish(b, e.id, e.t, dn, obs)
       [] e.ev = "rollback" -> BRollback(b, e.id, e.t, dn, obs)
       [] e.ev = "recover"  -> Recover(b, e.id, dn, obs)
       [] e.ev = "rep"      -> HandleReply(b, pend[e.c], e.res, e.v, Pairs(e.l), dn, obs)
       [] OTHER             -> Silent(b)

\* Identity of a call without the operation it belongs to (not observable).
Bare(c) == [c EXCEPT !.id = 0]

Verdict(e, r) ==
  LET xc  == { Bare(r.calls[i]) : i \in DOMAIN r.calls }
      oc  == { CallOf(e.calls[i], 0) : i \in DOMAIN e.calls }
      dif == (xc \ oc) \cup (oc \ xc)
      rec == \/ e.ev = "recover"
             \/ e.ev = "rep" /\ (pend[e.c].id = RecId \/ pend[e.c].kind = "tickets")
      P(x) == IF rec THEN "rec-" \o x ELSE x
      xb == { r.cbs[i] : i \in DOMAIN r.cbs }
      ob == { e.cbs[i] : i \in DOMAIN e.cbs }
  IN CASE e.ev \in {"crash", "hang"} -> e.ev
       [] e.ev = "highest" -> IF e.v = b.high THEN "" ELSE "highest"
       [] dif # {} -> P("call-" \o (IF \E c \in dif : c.kind = "commit" THEN "commit"
                                    ELSE IF \E c \in dif : c.kind = "rollback" THEN "rollback"
                                    ELSE (CHOOSE c \in dif : TRUE).kind))
       [] Len(e.calls) # Len(r.calls) -> P("call-repeated")
       [] xb # ob \/ Len(e.cbs) # Len(r.cbs) ->
            P("result-" \o IF e.ev = "rep" THEN pend[e.c].kind ELSE e.ev)
       [] ~CommitAfterPrepare(r.b) -> P("inv-atomic")
       [] OTHER -> ""

\* The operation a logged call belongs to is the one the model says.
IdOf(r, x) == LET m == CHOOSE i \in DOMAIN r.calls : Bare(r.calls[i]) = CallOf(x, 0)
              IN r.calls[m].id

Init == b = Broker0([k \in BKey |-> 0]) /\ pend = <<>> /\ l = 1 /\ bad = ""

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN b' = Broker0([k \in BKey |-> e.loc[k]]) /\ pend' = <<>> /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<b, pend, bad>>
     ELSE IF e.ev \in {"crash", "hang"}
     THEN bad' = e.ev /\ UNCHANGED <<b, pend>> /\ Report(l, e.ev, e)
     ELSE LET r == Apply(e)
              v == Verdict(e, r)
              new == { i \in DOMAIN e.calls : e.calls[i].acc = 1 }
          IN /\ b' = r.b
             /\ bad' = v
             /\ pend' = IF v # "" THEN pend
                        ELSE [c \in (DOMAIN pend \ (IF e.ev = "rep" THEN {e.c} ELSE {}))
                                    \cup { e.calls[i].c : i \in new } |->
                                IF c \in Ids(e)
                                THEN LET x == e.calls[CHOOSE i \in new : e.calls[i].c = c]
                                     IN CallOf(x, IdOf(r, x))
                                ELSE pend[c]]
             /\ (v # "" => Report(l, v, e))

Spec == Init /\ [][Next]_vars
=============================================================================
