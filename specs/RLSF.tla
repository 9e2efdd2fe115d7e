-------------------------------- MODULE RLSF --------------------------------
(* A replicated runtime locking shard: the leader's volatile shard (RLS), the
   replicated state rebuilt from the command log, and the commands that were
   appended but not yet committed by the log.  A request is answered when its
   command has been committed and applied.  A fail-over at any point commits
   any prefix of the pending commands, loses the rest, and builds a new shard
   from the replicated state.                                               *)
EXTENDS RLS

NoUpds == [k \in Key |-> NoUpd]

FInit ==
  [ imp  |-> Init0,
    val  |-> [k \in Key |-> 0],              \* replicated values
    rst  |-> [t \in Tk |-> "none"],          \* replicated ticket phases
    rupd |-> [t \in Tk |-> NoUpds],          \* replicated staged updates
    rbr  |-> [t \in Tk |-> 0],
    pend |-> << >> ]

\* Replies are <<op, ticket, result>>.
FRes(f, reps, cbs) == [s |-> f, reps |-> reps, cbs |-> cbs]

FLock(f, t, b, k, ty, first) ==
  LET r == TryLock(f.imp, t, b, k, ty, first)
  IN FRes([f EXCEPT !.imp = r.s], {}, r.cbs)

Append1(f, op, t, b, u) ==
  [f EXCEPT !.pend = Append(@, [op |-> op, t |-> t, b |-> b, u |-> u])]

FPrepare(f, t, b, u) ==
  LET r == Prepare(f.imp, t, u)
  IN IF r.res # "ok" THEN FRes(f, {<<"prepare", t, r.res>>}, {})
     ELSE FRes(Append1([f EXCEPT !.imp = r.s], "prepare", t, b, u), {}, {})

FCommit(f, t)   == FRes(Append1(f, "commit", t, 0, NoUpds), {}, {})
FRollback(f, t) == FRes(Append1(f, "rollback", t, 0, NoUpds), {}, {})
FFinish(f, t)   == FRes(Append1(f, "finish", t, 0, NoUpds), {}, {})

\* Effect of a committed command on the replicated state.
Replicate(f, e) ==
  CASE e.op = "prepare" ->
         IF f.rst[e.t] # "none" THEN f
         ELSE [f EXCEPT !.rst[e.t] = "prepared", !.rupd[e.t] = e.u, !.rbr[e.t] = e.b]
    [] e.op = "commit" ->
         IF f.rst[e.t] # "prepared" THEN f
         ELSE [f EXCEPT !.rst[e.t] = "committed",
                        !.val = [k \in Key |-> IF f.rupd[e.t][k] = NoUpd THEN @[k]
                                               ELSE f.rupd[e.t][k]],
                        !.rupd[e.t] = NoUpds]
    [] OTHER ->
         [f EXCEPT !.rst[e.t] = "none", !.rupd[e.t] = NoUpds, !.rbr[e.t] = 0]

\* The oldest pending command is committed while its leader is alive.
FApply(f) ==
  LET e  == Head(f.pend)
      f1 == [Replicate(f, e) EXCEPT !.pend = Tail(@)]
  IN CASE e.op = "prepare" -> FRes(f1, {<<"prepare", e.t, "ok">>}, {})
       [] e.op = "commit" ->
            IF f.rst[e.t] = "none"
            THEN FRes(f1, {<<"commit", e.t, "internal_error">>}, {})
            ELSE LET r == Commit(f1.imp, e.t)
                 IN FRes([f1 EXCEPT !.imp = r.s], {<<"commit", e.t, r.res>>}, r.cbs)
       [] e.op = "rollback" ->
            LET r == Rollback(f1.imp, e.t)
            IN FRes([f1 EXCEPT !.imp = r.s], {<<"rollback", e.t, r.res>>}, r.cbs)
       [] OTHER ->
            LET r == Finish(f1.imp, e.t)
            IN FRes([f1 EXCEPT !.imp = r.s], {<<"finish", e.t, r.res>>}, r.cbs)

\* What a new leader builds from the replicated state.
Recovered(f) ==
  [Init0 EXCEPT
     !.val = f.val,
     !.st  = f.rst,
     !.br  = f.rbr,
     !.upd = [t \in Tk |-> IF f.rst[t] = "prepared" THEN f.rupd[t] ELSE NoUpds],
     !.wr  = [k \in Key |->
                IF \E t \in Tk : f.rst[t] = "prepared" /\ f.rupd[t][k] # NoUpd
                THEN CHOOSE t \in Tk : f.rst[t] = "prepared" /\ f.rupd[t][k] # NoUpd
                ELSE 0]]

RECURSIVE ReplN(_, _)
ReplN(f, n) == IF n = 0 \/ f.pend = << >> THEN [f EXCEPT !.pend = << >>]
               ELSE ReplN([Replicate(f, Head(f.pend)) EXCEPT !.pend = Tail(@)], n - 1)

\* Fail-over: n pending commands survive, the others are lost.
FCrash(f, n) == LET g == ReplN(f, n) IN FRes([g EXCEPT !.imp = Recovered(g)], {}, {})

----------------------------------------------------------------------------
\* Values of the leader are exactly those of the replicated commits.
ValAgree(f) == f.imp.val = f.val
\* No two prepared transactions are to write the same key.
PreparedDisjoint(f) ==
  \A t, u \in Tk : t # u /\ f.rst[t] = "prepared" /\ f.rst[u] = "prepared" =>
    \A k \in Key : f.rupd[t][k] = NoUpd \/ f.rupd[u][k] = NoUpd
\* Whatever is replicated as in flight is known to the leader with the same
\* staged updates.
LeaderKnows(f) ==
  \A t \in Tk :
    /\ f.rst[t] = "prepared" => f.imp.st[t] = "prepared" /\ f.imp.upd[t] = f.rupd[t]
    /\ f.rst[t] = "committed" => f.imp.st[t] = "committed"
=============================================================================
