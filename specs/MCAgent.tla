------------------------------ MODULE MCAgent ------------------------------
(* An agent with a broker and a function that may answer anything, or nothing. *)
EXTENDS Agent, TLC
CONSTANTS Fn, Ro, MaxRun, MaxBad, MaxAsk
VARIABLES s, on, asks, com, clean, fin, outs, bad, wr, undo, h, id
vars == <<s, on, asks, com, clean, fin, outs, bad, wr, undo, h, id>>
S(x) == ToString(x)
Init == /\ s = GInit(Fn, 1, Ro) /\ on = FALSE /\ asks = 0 /\ com = {} /\ clean = TRUE /\ fin = FALSE
        /\ outs = << >> /\ bad = 0 /\ wr = FALSE /\ undo = FALSE /\ h = "" /\ id = 1
Quiet == s.todo = << >>
Upd == IF Ro THEN {<<1, 5>>} ELSE {<<1, 7>>, <<2, 8>>}

\* What the agent does next.
Out ==
  /\ ~Quiet
  /\ LET x == Head(s.todo) IN
     IF x.op \in {"result", "lockres"}
     THEN /\ s' = [s EXCEPT !.todo = Tail(@)]
          /\ outs' = IF x.op = "result" THEN Append(outs, [r |-> x.r, st |-> s.st, com |-> com, clean |-> clean, fin |-> fin]) ELSE outs
          /\ UNCHANGED <<on, asks, com, clean, fin, bad, wr, undo, h, id>>
     ELSE \E y \in (IF x.op \in {"relock", "asklock"} THEN x.S ELSE {<<0, 0>>}), how \in {"later", "fail"} :
          LET a == GTake(s, x.op, y[1], y[2], id)
              b == IF how = "fail" THEN GFail([a EXCEPT !.pend = Drop(@, {id})], x.op) ELSE a
          IN /\ how = "fail" => bad < MaxBad
             /\ s' = IF x.op = "run" /\ how = "later" THEN [a EXCEPT !.pend = Drop(@, {id})] ELSE b
             /\ bad' = IF how = "fail" THEN bad + 1 ELSE bad
             /\ on' = IF x.op = "run" THEN how = "later" ELSE on
             /\ asks' = IF x.op = "run" THEN 0 ELSE asks
             /\ clean' = IF x.op \in {"fnlock", "relock", "asklock", "run", "commit"} THEN FALSE ELSE clean
             /\ wr' = (wr \/ (x.op \in {"relock", "asklock"} /\ y[2] = 1) \/ (x.op = "fnlock" /\ s.ini = 1))
             /\ undo' = (undo \/ (x.op = "rollback" /\ com # {}) \/ (x.op = "finish" /\ com = {} /\ ~clean))
             /\ id' = id + 1
             /\ h' = h \o "how " \o how \o ";"
             /\ UNCHANGED <<com, fin, outs>>
Answer ==
  /\ Quiet
  /\ \E n \in DOMAIN s.pend :
     \E r \in (CASE s.pend[n].op \in {"fnlock", "relock", "asklock"} -> {"ok", "wounded", "shard", "err"}
                 [] s.pend[n].op = "commit" -> {"ok", "err", "hazard", "wounded", "shard"}
                 [] OTHER -> {"ok", "err"}) :
       LET p == s.pend[n]
           a == Skip(GReply([s EXCEPT !.pend = Drop(@, {n})], p, r, 3)) IN
       /\ r # "ok" => bad < MaxBad
       /\ \A m \in DOMAIN s.pend : s.pend[m].op = p.op => m >= n
       /\ bad' = IF r # "ok" THEN bad + 1 ELSE bad
       /\ s' = IF p.op = "rollback" /\ r = "ok" THEN Forget(a) ELSE a
       /\ com' = IF p.op = "commit" /\ r = "ok" /\ s.st = "commit_sent" THEN com \cup {s.res.upd} ELSE com
       /\ clean' = IF p.op = "rollback" /\ r = "ok" THEN TRUE ELSE clean
       /\ fin' = (fin \/ (p.op = "finish" /\ r = "ok"))
       /\ on' = IF p.op = "rollback" /\ r = "ok" THEN FALSE ELSE on
       /\ h' = h \o "reply " \o p.op \o " " \o r \o " 3;"
       /\ UNCHANGED <<asks, outs, wr, undo, id>>
Busy == \E n \in DOMAIN s.pend : s.pend[n].op = "asklock"
Run ==
  /\ Quiet /\ on /\ ~Busy
  /\ \/ \E r \in {"ok", "wounded", "exec"} :
          /\ r # "ok" => bad < MaxBad
          /\ bad' = IF r # "ok" THEN bad + 1 ELSE bad
          /\ s' = GRunRes(s, r, IF r = "ok" THEN Upd ELSE {})
          /\ on' = FALSE /\ UNCHANGED asks
          /\ h' = h \o "runres " \o r \o (IF r # "ok" THEN "" ELSE IF Ro THEN " 1=5" ELSE " 1=7 2=8") \o ";"
     \/ \E k \in {1, 2}, ty \in {0, 1} :
          /\ asks < MaxAsk /\ asks' = asks + 1
          /\ s' = GAsk(s, k, ty).s /\ UNCHANGED <<on, bad>>
          /\ h' = h \o "ask " \o S(k) \o " " \o S(ty) \o ";"
  /\ UNCHANGED <<com, clean, fin, outs, wr, undo, id>>
Resting == {"init", "begin_failed", "rollback_complete", "rollback_failed", "finish_failed"}
Exec ==
  /\ Quiet /\ s.st \in Resting
  /\ s.st # "rollback_complete" \/ s.run < MaxRun
  /\ s' = GExec(s) /\ h' = h \o "exec;"
  /\ UNCHANGED <<on, asks, com, clean, fin, outs, bad, wr, undo, id>>
Next == Out \/ Answer \/ Run \/ Exec
Spec == Init /\ [][Next]_vars
View == <<s.st, s.t, s.res, s.wounded, s.req, s.perm, s.again, s.run, s.left, { s.pend[n].op : n \in DOMAIN s.pend }, s.todo, on, asks, com, clean, fin, outs, bad, wr, undo>>
Emit == PrintT("H " \o h')

Finals == { i \in DOMAIN outs : outs[i].st = "finish_complete" }
OneOutcome  == Cardinality(Finals) <= 1 /\ (Finals # {} => Finals = {Len(outs)})
OkCommitted == \A i \in DOMAIN outs : outs[i].r.k = "ok" => outs[i].fin /\ outs[i].com = {outs[i].r.upd}
Truthful    == \A i \in Finals : outs[i].com # {} => outs[i].r.k = "ok"
OneCommit   == Cardinality(com) <= 1
RetryClean  == \A i \in DOMAIN outs : outs[i].r.k = "retry" => outs[i].clean /\ outs[i].com = {}
FailClean   == \A i \in Finals : outs[i].r.k # "ok" => outs[i].clean /\ outs[i].fin /\ outs[i].com = {}
ReadOnly    == Ro => ~wr
NoUndo      == ~undo   \* no rollback of a commit, finish only when committed or rolled back
NeverStuck  == (Quiet /\ s.pend = << >> /\ ~on) => s.st \in Resting \cup {"finish_complete"}
Reported      == (Quiet /\ s.st \in (Resting \ {"init"}) \cup {"finish_complete"}) => outs # << >> /\ outs[Len(outs)].st = s.st
=============================================================================
