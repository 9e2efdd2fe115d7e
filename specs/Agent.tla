------------------------------- MODULE Agent -------------------------------
(* One execution of a contract by an agent.  todo is what the agent must do
   next, in order; pend are its unanswered calls, by number.
   Outcomes: [k |-> "ok", upd] or [k |-> error name, upd |-> {}].            *)
EXTENDS Naturals, Sequences, FiniteSets

Item(op) == [op |-> op, S |-> {}, r |-> [k |-> "", upd |-> {}]]
NoRes == [k |-> "", upd |-> {}]
Err(k) == [k |-> k, upd |-> {}]
Tell(r) == [op |-> "result", S |-> {}, r |-> r]
\* fn: how the function is found: "key" (locked), "byte" (used as it is),
\* "none" (empty); ini: lock type for it; ro: read-only run.
GInit(fn, ini, ro) ==
  [st |-> "init", t |-> 0, fn |-> fn, ini |-> IF ro THEN 0 ELSE ini, ro |-> ro, res |-> NoRes,
   wounded |-> FALSE, req |-> << >>, perm |-> FALSE, again |-> FALSE, run |-> 0, fval |-> 0,
   left |-> 0, pend |-> << >>, todo |-> << >>]
Do(s, q) == [s EXCEPT !.todo = q \o @]
Drop(f, X) == [x \in DOMAIN f \ X |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Rollback(s, perm) == Do([s EXCEPT !.st = "rollback_sent", !.perm = perm], <<Item("rollback")>>)
Finish(s) == Do([s EXCEPT !.st = "finish_sent"], <<Item("finish")>>)
Commit(s) == Do([s EXCEPT !.st = "commit_sent"], <<Item("commit")>>)
\* The function's code v is there.  Locks of an earlier attempt come first.
Start(s, v) ==
  LET again == { <<k, s.req[k]>> : k \in DOMAIN s.req }
      s1 == [s EXCEPT !.st = "started", !.fval = v, !.req = << >>, !.left = Cardinality(again), !.run = @ + 1]
  IN IF again = {} THEN Do(s1, <<Item("run")>>)
     ELSE Do(s1, <<[op |-> "relock", S |-> again, r |-> NoRes]>>)
Fetch(s) ==
  LET s1 == [s EXCEPT !.st = "fetch"] IN
  CASE s.fn = "key" -> Do(s1, <<Item("fnlock")>>)
    [] s.fn = "byte" -> Start(s1, 999)
    [] OTHER -> IF s.ro THEN Start(s1, 0) ELSE Do(s1, <<Item("fnlock")>>)

GExec(s) ==
  CASE s.st \in {"init", "begin_sent", "begin_failed"} ->
         Do([s EXCEPT !.st = "begin_sent", !.res = NoRes], <<Item("begin")>>)
    [] s.st = "rollback_complete" ->
         Fetch([s EXCEPT !.res = NoRes, !.wounded = FALSE, !.again = TRUE])
    [] s.st = "commit_sent" -> Commit(s)
    [] s.st \in {"rollback_failed", "rollback_sent"} -> Rollback(s, s.perm)
    [] s.st \in {"fetch", "started"} -> Rollback(s, FALSE)
    [] s.st \in {"finish_sent", "finish_failed"} -> Finish(s)
    [] OTHER -> s

\* A call (the head of todo) could not be made.
GFail(s, op) ==
  CASE op = "begin"    -> Do([s EXCEPT !.st = "begin_failed"], <<Tell(Err("broker_unreachable"))>>)
    [] op = "fnlock"   -> Rollback([s EXCEPT !.res = Err("broker_unreachable")], FALSE)
    [] op = "relock"   -> Rollback([s EXCEPT !.res = Err("function_retrieval"),
                                             !.todo = IF @ # << >> /\ Head(@).op = "relock" THEN Tail(@) ELSE @], FALSE)
    [] op = "run"      -> Rollback([s EXCEPT !.res = Err("function_execution")], FALSE)
    [] op = "commit"   -> Rollback([s EXCEPT !.res = Err("broker_unreachable")], FALSE)
    [] op = "rollback" -> Do([s EXCEPT !.st = "rollback_failed"], <<Tell(Err("broker_unreachable"))>>)
    [] op = "finish"   -> Do([s EXCEPT !.st = "finish_failed"], <<Tell(Err("broker_unreachable"))>>)
    [] OTHER           -> s

\* One more of the locks of the earlier attempt was answered.
Relocked(s, n) ==
  LET s1 == [s EXCEPT !.left = @ - n] IN IF s1.left = 0 /\ n > 0 THEN Do(s1, <<Item("run")>>) ELSE s1

LockAnswer(k) == [op |-> "lockres", S |-> {}, r |-> Err(k)]
\* Answers: r is "ok" (value v) or an error.
GReply(s, p, r, v) ==
  CASE p.op = "begin" ->
         IF s.st # "begin_sent" THEN s
         ELSE IF r = "ok" THEN Fetch([s EXCEPT !.t = v])
         ELSE Do([s EXCEPT !.st = "begin_failed"], <<Tell(Err("ticket_number_assignment"))>>)
    [] p.op = "fnlock" ->
         IF s.st # "fetch" THEN s
         ELSE IF r = "ok" THEN Start(s, v)
         ELSE Rollback([s EXCEPT !.res = Err("function_retrieval")], r = "shard")
    [] p.op \in {"relock", "asklock"} ->
         IF s.st # "started" THEN s
         ELSE LET s1 == [s EXCEPT !.wounded = @ \/ r = "wounded"] IN
              IF p.op = "relock" THEN Relocked(s1, 1) ELSE Do(s1, <<LockAnswer(r)>>)
    [] p.op = "commit" ->
         IF s.st # "commit_sent" THEN s
         ELSE IF r = "ok" THEN Finish(s)
         ELSE Rollback([s EXCEPT !.res = Err("commit_error")], r \in {"hazard", "shard"})
    [] p.op = "finish" ->
         IF s.st # "finish_sent" THEN s
         ELSE IF r = "ok" THEN Do([s EXCEPT !.st = "finish_complete"], <<Tell(s.res)>>)
         ELSE Do([s EXCEPT !.st = "finish_failed"], <<Tell(Err("finish_error"))>>)
    [] p.op = "rollback" ->
         IF s.st # "rollback_sent" THEN s
         ELSE IF r # "ok" THEN Do([s EXCEPT !.st = "rollback_failed"], <<Tell(Err("rollback_error"))>>)
         ELSE LET s1 == [s EXCEPT !.st = "rollback_complete"] IN
              IF s.perm THEN Finish(s1) ELSE Do(s1, <<Tell(Err("retry"))>>)
    [] OTHER -> s

\* The function ended: "ok" with updates, or an error.
GRunRes(s, r, upd) ==
  IF s.st # "started" THEN s
  ELSE IF r = "ok" THEN Commit([s EXCEPT !.res = [k |-> "ok", upd |-> upd]])
  ELSE Rollback([s EXCEPT !.res = Err("function_execution")], r # "wounded")
\* The function asks for a lock; the result says whether it was accepted.
GAsk(s, k, ty) ==
  IF s.st # "started" \/ (s.ro /\ ty = 1) THEN [s |-> s, ok |-> 0]
  ELSE IF s.wounded THEN [s |-> Do(s, <<LockAnswer("wounded")>>), ok |-> 1]
  ELSE LET s1 == [s EXCEPT !.req = Put(@, k, IF k \in DOMAIN @ /\ @[k] = 1 THEN 1 ELSE ty)] IN
       [s |-> Do(s1, <<[op |-> "asklock", S |-> {<<k, ty>>}, r |-> NoRes]>>), ok |-> 1]

\* The call [op, key, ty] is made: taken from the head of todo, noted as id.
GTake(s, op, k, ty, id) ==
  LET h == Head(s.todo)
      p == [op |-> h.op, run |-> s.run, key |-> k]
      s1 == [s EXCEPT !.pend = Put(@, id, p)]
  IN IF h.op = "relock" /\ h.S # {<<k, ty>>}
     THEN [s1 EXCEPT !.todo = <<[h EXCEPT !.S = @ \ {<<k, ty>>}]>> \o Tail(@), !.req = Put(@, k, ty)]
     ELSE [s1 EXCEPT !.todo = Tail(@), !.req = IF h.op = "relock" THEN Put(@, k, ty) ELSE @]
\* Locks left to ask for again when the ticket is wounded: not asked.
Skip(s) ==
  IF s.todo # << >> /\ Head(s.todo).op = "relock" /\ s.wounded
  THEN Relocked([s EXCEPT !.todo = Tail(@)], Cardinality(Head(s.todo).S))
  ELSE s
\* After a rollback the broker does not answer older lock requests any more.
Forget(s) == [s EXCEPT !.pend = [x \in { y \in DOMAIN @ : @[y].op \notin {"fnlock", "relock", "asklock"} } |-> @[x]]]
=============================================================================
