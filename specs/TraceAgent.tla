------------------------------ MODULE TraceAgent ------------------------------
(* Validates executions of the real agent - alone with a scripted function, or
   many of them behind their server with the Lua runner on a stand-in virtual
   machine - against Agent.                                                   *)
EXTENDS Agent, TraceLib

VARIABLES ag, own, srv, progs, cur, lastv, l, bad
vars == <<ag, own, srv, progs, cur, lastv, l, bad>>

Pairs(x) == { <<x[i][1], x[i][2]>> : i \in DOMAIN x }
SG(a) == ag[a].s
Set(a, s) == [ag EXCEPT ![a].s = s]

\* Behind the server some steps cannot be seen: failures of the lock calls and
\* unknown code end the function, and the server retries by itself.
RECURSIVE Auto(_)
Auto(s) ==
  IF ~srv \/ s.todo = << >> THEN s
  ELSE LET x == Head(s.todo) s1 == [s EXCEPT !.todo = Tail(@)] IN
       CASE x.op = "lockres" /\ x.r.k # "ok" ->
              Auto(GRunRes(s1, IF x.r.k = "wounded" THEN "wounded" ELSE "exec", {}))
         [] x.op = "run" /\ s.fval \notin progs -> Auto(GRunRes(s1, "exec", {}))
         [] x.op = "result" /\ x.r.k = "retry" -> Auto(GExec(s1))
         [] OTHER -> s

\* ---- a call of the agent on the broker, or the start of the function
OwnerOf(e) ==
  IF e.op = "begin" \/ ~srv THEN cur
  ELSE IF \E a \in DOMAIN ag : SG(a).t = e.t /\ SG(a).t # 0 THEN CHOOSE a \in DOMAIN ag : SG(a).t = e.t ELSE 0
ItemOf(x, e, s, a) ==
  CASE x = "fnlock"  -> <<e.op = "lock", e.op = "lock" /\ e.key = a.key /\ e.ty = s.ini>>
    [] x \in {"relock", "asklock"} -> <<e.op = "lock", e.op = "lock" /\ <<e.key, e.ty>> \in Head(s.todo).S>>
    [] x = "commit"  -> <<e.op = "commit", e.op = "commit" /\ Pairs(e.upd) = (IF s.ro THEN {} ELSE s.res.upd)>>
    [] x = "run"     -> <<e.op = "run", e.op = "run" /\ e.val = s.fval /\ e.par = a.par /\ e.ro = (IF s.ro THEN 1 ELSE 0)
                                         /\ e.again = (IF s.again THEN 1 ELSE 0)>>
    [] OTHER         -> <<e.op = x, e.op = x>>
OnCall(e) ==
  LET a == OwnerOf(e) IN
  IF a = 0 THEN [v |-> "unexpected-" \o e.op, ag |-> ag, own |-> own]
  ELSE LET s == SG(a)
           op == IF s.todo = << >> THEN "" ELSE Head(s.todo).op
           m == IF op = "" THEN <<FALSE, FALSE>> ELSE ItemOf(op, e, s, ag[a])
       IN IF ~m[1] THEN [v |-> "unexpected-" \o e.op, ag |-> ag, own |-> own]
          ELSE IF ~m[2] THEN [v |-> "args-" \o op, ag |-> ag, own |-> own]
          ELSE IF e.op # "begin" /\ e.t # s.t THEN [v |-> "ticket-" \o op, ag |-> ag, own |-> own]
          ELSE LET g == GTake(s, op, IF e.op = "lock" THEN e.key ELSE 0, IF e.op = "lock" THEN e.ty ELSE 0, e.id)
                   g1 == IF e.how = "fail" \/ op = "run" THEN [g EXCEPT !.pend = Drop(@, {e.id})] ELSE g
                   g2 == IF e.how # "fail" THEN g1
                         ELSE LET f == GFail(g1, op) IN
                              IF srv /\ op = "asklock" THEN GRunRes(f, "exec", {}) ELSE f
               IN [v |-> "", ag |-> Set(a, Auto(g2)), own |-> Put(own, e.id, a)]

OnReply(e) ==
  LET a == own[e.id]
      s == SG(a)
      p == s.pend[e.id]
      r == Skip(GReply([s EXCEPT !.pend = Drop(@, {e.id})], p, e.r, e.v))
  IN IF e.id \notin DOMAIN s.pend THEN [v |-> "unexpected-reply", ag |-> ag]
     ELSE [v |-> "", ag |-> Set(a, Auto(IF p.op = "rollback" /\ e.r = "ok" THEN Forget(r) ELSE r))]

\* ---- what the function sees and does, behind the server
OnVm(e) ==
  LET a == e.a
      s == SG(a)
      x == IF s.todo = << >> THEN Item("") ELSE Head(s.todo)
      s1 == [s EXCEPT !.todo = Tail(@)]
      ok == IF e.n = 1 THEN x.op = "run" ELSE x.op = "lockres"
      k == GAsk(s1, e.y, 1)
  IN IF a \notin DOMAIN ag THEN [v |-> "args-run", ag |-> ag]
     ELSE IF ~ok THEN [v |-> "unexpected-run", ag |-> ag]
     ELSE IF e.n = 1 /\ (e.prog # s.fval \/ e.v # ag[a].par) THEN [v |-> "args-run", ag |-> ag]
     ELSE IF e.n > 1 /\ e.v # lastv THEN [v |-> "args-lockres", ag |-> ag]
     ELSE [v |-> "", ag |-> Set(a, Auto(
            IF e.y # 999 THEN IF k.ok = 1 THEN k.s ELSE GRunRes(s1, "exec", {})
            ELSE IF e.end = "R" THEN GRunRes(s1, "ok", Pairs(e.upd)) ELSE GRunRes(s1, "exec", {})))]

\* ---- results
OnOut(e, op) ==
  LET s == SG(e.a)
      x == IF s.todo = << >> THEN Item("") ELSE Head(s.todo)
      s1 == [s EXCEPT !.todo = Tail(@)]
  IN IF e.a \notin DOMAIN ag THEN [v |-> "unexpected-" \o op, ag |-> ag]
     ELSE IF x.op # op THEN [v |-> "unexpected-" \o op, ag |-> ag]
     ELSE IF op = "result" /\ (x.r.k # e.k \/ (e.k = "ok" /\ Pairs(e.upd) # x.r.upd)) THEN [v |-> "wrong-result", ag |-> ag]
     ELSE IF op = "result" /\ srv /\ e.peer # e.a THEN [v |-> "wrong-peer", ag |-> ag]
     ELSE IF op = "lockres" /\ (x.r.k # e.k \/ (e.k = "ok" /\ e.v # lastv)) THEN [v |-> "wrong-lockres", ag |-> ag]
     ELSE [v |-> "", ag |-> Set(e.a, s1)]

Missing == { a \in DOMAIN ag : SG(a).todo # << >> }
Same(v) == [v |-> v, ag |-> ag]
On(e) ==
  CASE e.ev = "new"     -> [v |-> "", ag |-> Put(ag, e.a, [s |-> GInit(e.fn, e.ini, e.ro = 1), key |-> e.key, par |-> e.par, ok |-> 1])]
    [] e.ev = "exec"    -> [v |-> "", ag |-> Set(e.a, Auto(GExec(SG(e.a))))]
    [] e.ev = "reply"   -> IF e.id \in DOMAIN own THEN OnReply(e) ELSE Same("unexpected-reply")
    [] e.ev = "runres"  -> [v |-> "", ag |-> Set(e.a, GRunRes(SG(e.a), e.r, Pairs(e.upd)))]
    [] e.ev = "ask"     -> LET r == GAsk(SG(e.a), e.key, e.ty) IN [v |-> "", ag |-> [ag EXCEPT ![e.a].s = r.s, ![e.a].ok = r.ok]]
    [] e.ev = "askret"  -> Same(IF e.ok = 1 /\ ag[e.a].ok = 0 THEN "ask-accepted" ELSE "")
    [] e.ev = "vm"      -> OnVm(e)
    [] e.ev = "result"  -> OnOut(e, "result")
    [] e.ev = "resp"    -> OnOut(e, "result")
    [] e.ev = "lockres" -> OnOut(e, "lockres")
    [] e.ev = "q"       -> IF Missing = {} THEN Same("")
                           ELSE Same("missing-" \o Head(SG(CHOOSE a \in Missing : TRUE).todo).op)
    [] OTHER            -> Same("")

Init == ag = << >> /\ own = << >> /\ srv = FALSE /\ progs = {} /\ cur = 1 /\ lastv = 0 /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN ag' = << >> /\ own' = << >> /\ srv' = (e.srv = 1) /\ progs' = {} /\ cur' = 1 /\ lastv' = 0 /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<ag, own, srv, progs, cur, lastv, bad>>
     ELSE IF e.ev \in {"crash", "hang"}
     THEN bad' = e.ev /\ UNCHANGED <<ag, own, srv, progs, cur, lastv>> /\ Report(l, e.ev, e)
     ELSE IF e.ev = "call"
     THEN LET r == OnCall(e) IN
          ag' = r.ag /\ own' = r.own /\ bad' = r.v /\ UNCHANGED <<srv, progs, cur, lastv>> /\ (r.v # "" => Report(l, r.v, e))
     ELSE LET r == On(e) IN
          /\ ag' = r.ag /\ bad' = r.v
          /\ progs' = IF e.ev = "prog" THEN progs \cup {e.p} ELSE progs
          /\ cur' = IF e.ev = "new" THEN e.a ELSE cur
          /\ lastv' = IF e.ev = "reply" THEN e.v ELSE lastv
          /\ UNCHANGED <<own, srv>>
          /\ (r.v # "" => Report(l, r.v, e))
Spec == Init /\ [][Next]_vars
=============================================================================
