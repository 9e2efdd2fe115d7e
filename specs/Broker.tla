------------------------------- MODULE Broker -------------------------------
(* A PArSEC broker: per ticket and per shard state machine that locks keys on
   shards, prepares a ticket on all shards it touched, commits it, finishes or
   rolls it back, and recovers tickets after a restart.

   The state is one record `b`.  Every operation and every reply handler is an
   operator returning [b |-> new state, calls |-> sequence of requests made to
   shards, cbs |-> sequence of results given to clients].
     call: [kind, s, t, k, ty, first, u, id]
     cb:   <<id, result, value>>     (results of shards are named "S:...")
   `id` names the client operation a result belongs to; RecId stands for the
   broker's own recovery.  `dn` is the set of shards that cannot be reached and
   `obs` the set of <<ticket, shard>> pairs a request was attempted on; obs only
   matters when a needed shard is unreachable, because then the order in which
   the shards are tried, which is not specified, decides who is asked.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS BT, BS, BK,     \* numbers of tickets, shards (0..BS-1) and keys
          RecId           \* marks the broker's own recovery operations

BTk  == 1..BT
BSh  == 0..(BS - 1)
BKey == 1..BK

NoRec == [s \in BSh |-> {<<0, "no">>}]

Broker0(loc) ==
  [ tst |-> [t \in BTk |-> "none"],                    \* ticket state
    ss  |-> [t \in BTk |-> [s \in BSh |-> "none"]],    \* state on each shard
    ks  |-> [t \in BTk |-> [k \in BKey |-> "n"]],      \* n / lk (asked) / ld
    kt  |-> [t \in BTk |-> [k \in BKey |-> "r"]],      \* lock type asked for
    kv  |-> [t \in BTk |-> [k \in BKey |-> 0]],        \* value read
    loc |-> loc,                                       \* key -> shard
    high |-> 0,                                        \* highest ticket seen
    rec |-> NoRec, rid |-> RecId ]                         \* recovery in progress

Shards(b, t) == { s \in BSh : b.ss[t][s] # "none" }
KeysOf(b, t, s) == { k \in BKey : b.ks[t][k] # "n" /\ b.loc[k] = s }
Reply(b, id, res, v) == [b |-> b, calls |-> <<>>, cbs |-> <<<<id, res, v>>>>]
Silent(b) == [b |-> b, calls |-> <<>>, cbs |-> <<>>]
Call(kind, s, t, id) == [kind |-> kind, s |-> s, t |-> t, k |-> 0, ty |-> "r",
                         first |-> FALSE, u |-> {}, id |-> id]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

\* Which of the needed shards are attempted, given the unreachable ones.
Chosen(N, dn, obs, t) ==
  LET o == { s \in BSh : <<t, s>> \in obs }
  IN IF N \cap dn = {} THEN N
     ELSE IF o \subseteq N /\ Cardinality(o \cap dn) = 1 THEN o ELSE {}
\* Unreachable is reported once, by the first attempt that fails.
Unreach(A, dn, id) == IF A \cap dn # {} THEN <<<<id, "shard_unreachable", 0>>>> ELSE <<>>

\* mode: how the ticket machine answers; hi: end of the range it gave
Begin(b, id, t, hi, mode) ==
  IF mode = "refuse" THEN Reply(b, id, "ticket_machine_unreachable", 0)
  ELSE IF mode # "ok" THEN Reply(b, id, "ticket_number_assignment", 0)
  ELSE Reply([b EXCEPT !.tst[t] = IF @ = "none" THEN "begun" ELSE @,
                       !.high = IF hi > @ THEN hi ELSE @], id, "ok", t)

Clear(b, t) == [b EXCEPT !.ss[t] = [s \in BSh |-> "none"],
                         !.ks[t] = [k \in BKey |-> "n"],
                         !.kt[t] = [k \in BKey |-> "r"],
                         !.kv[t] = [k \in BKey |-> 0]]
Erase(b, t) == Clear([b EXCEPT !.tst[t] = "none"], t)

\* dir: the directory knows where the key is
Lock(b0, id, t, k, ty, dir, dn) ==
  IF b0.tst[t] = "none" THEN Reply(b0, id, "unknown_ticket", 0)
  ELSE IF b0.tst[t] \in {"prepared", "committed"} THEN Reply(b0, id, b0.tst[t], 0)
  ELSE
  LET b == IF b0.tst[t] = "aborted"              \* restarts the transaction
           THEN Clear([b0 EXCEPT !.tst[t] = "begun"], t) ELSE b0
      s == b.loc[k]
      first == KeysOf(b, t, s) = {}
      b1 == [b EXCEPT !.ss[t][s] = IF @ = "none" THEN "begun" ELSE @]
  IN IF ~dir THEN Reply(b, id, "directory_unreachable", 0)
     ELSE IF b.ks[t][k] = "ld" /\ (b.kt[t][k] = "w" \/ ty = "r")
     THEN Reply(b1, id, "ok", b.kv[t][k])        \* already holds it
     ELSE [ b |-> [b1 EXCEPT !.ks[t][k] = "lk", !.kt[t][k] = ty],
            calls |-> << [Call("lock", s, t, id) EXCEPT !.k = k, !.ty = ty,
                                                       !.first = first] >>,
            cbs |-> IF s \in dn THEN <<<<id, "shard_unreachable", 0>>>> ELSE <<>> ]

LockReply(b0, c, res, v) ==
  LET t == c.t
      b == [b0 EXCEPT !.ss[t][c.s] = IF @ = "none" THEN "begun" ELSE @]
  IN IF res # "ok" THEN Reply(b0, c.id, res, v)
     ELSE IF b0.tst[t] = "none" THEN Reply(b0, c.id, "unknown_ticket", 0)
     ELSE IF b.ks[t][c.k] # "lk" THEN Reply(b, c.id, "invalid_shard_state", 0)
     ELSE Reply([b EXCEPT !.ks[t][c.k] = "ld", !.kv[t][c.k] = v], c.id, "ok", v)

DoCommit(b, id, t, dn, obs) ==
  LET N == { s \in Shards(b, t) : b.ss[t][s] # "committed" }
      A == Chosen(N, dn, obs, t)
  IN [ b |-> [b EXCEPT !.ss[t] = [s \in BSh |-> IF s \in A THEN "committing" ELSE @[s]]],
       calls |-> [i \in 1..Cardinality(A) |-> Call("commit", SetSeq(A)[i], t, id)],
       cbs |-> Unreach(A, dn, id) ]

DoPrepare(b, id, t, u, dn, obs) ==
  LET N == { s \in Shards(b, t) : b.ss[t][s] # "prepared" }
      A == Chosen(N, dn, obs, t)
      Upd(s) == { x \in u : x[1] \in KeysOf(b, t, s) }
  IN [ b |-> [b EXCEPT !.ss[t] = [s \in BSh |-> IF s \in A THEN "preparing" ELSE @[s]]],
       calls |-> [i \in 1..Cardinality(A) |->
                    [Call("prepare", SetSeq(A)[i], t, id) EXCEPT !.u = Upd(SetSeq(A)[i])]],
       cbs |-> Unreach(A, dn, id) ]

\* u: set of <<key, value>>
BCommit(b, id, t, u, dn, obs) ==
  IF b.tst[t] = "none" THEN Reply(b, id, "unknown_ticket", 0)
  ELSE IF b.tst[t] \in {"committed", "aborted"} THEN Reply(b, id, b.tst[t], 0)
  ELSE IF \E k \in BKey : b.ks[t][k] = "lk" THEN Reply(b, id, "waiting_for_locks", 0)
  ELSE IF \E x \in u : b.ks[t][x[1]] = "n" THEN Reply(b, id, "commit_hazard", 0)
  ELSE IF Shards(b, t) = {} THEN Reply([b EXCEPT !.tst[t] = "committed"], id, "ok", 0)
  ELSE IF b.tst[t] = "prepared" THEN DoCommit(b, id, t, dn, obs)
  ELSE DoPrepare(b, id, t, u, dn, obs)

PrepareReply(b0, c, res, dn, obs) ==
  LET t == c.t
      b == [b0 EXCEPT !.ss[t][c.s] = IF @ = "none" THEN "begun" ELSE @]
  IN IF b0.tst[t] = "none" THEN Reply(b0, c.id, "unknown_ticket", 0)
     ELSE IF b0.tst[t] # "begun" THEN Reply(b0, c.id, b0.tst[t], 0)
     ELSE IF b.ss[t][c.s] # "preparing" THEN Silent(b)
     ELSE IF res = "S:wounded" THEN
            IF \E s \in BSh : b.ss[t][s] = "wounded" THEN Silent(b)
            ELSE Reply([b EXCEPT !.ss[t][c.s] = "wounded"], c.id, res, 0)
     ELSE IF res # "ok" THEN Reply(b, c.id, res, 0)
     ELSE LET b1 == [b EXCEPT !.ss[t][c.s] = "prepared"]
          IN IF \E s \in Shards(b1, t) : b1.ss[t][s] # "prepared" THEN Silent(b1)
             ELSE DoCommit([b1 EXCEPT !.tst[t] = "prepared"], c.id, t, dn, obs)

BFinish(b, id, t, dn, obs) ==
  IF b.tst[t] = "none" THEN Reply(b, id, "unknown_ticket", 0)
  ELSE IF b.tst[t] \in {"begun", "prepared"} THEN Reply(b, id, b.tst[t], 0)
  ELSE IF b.tst[t] = "aborted" \/ Shards(b, t) = {} THEN Reply(Erase(b, t), id, "ok", 0)
  ELSE LET N == { s \in Shards(b, t) : b.ss[t][s] # "finished" }
           A == Chosen(N, dn, obs, t)
       IN [ b |-> [b EXCEPT !.ss[t] = [s \in BSh |-> IF s \in A THEN "finishing" ELSE @[s]]],
            calls |-> [i \in 1..Cardinality(A) |-> Call("finish", SetSeq(A)[i], t, id)],
            cbs |-> Unreach(A, dn, id) ]

BRollback(b, id, t, dn, obs) ==
  IF b.tst[t] = "none" THEN Reply(b, id, "unknown_ticket", 0)
  ELSE IF b.tst[t] # "begun" THEN Reply(b, id, b.tst[t], 0)
  ELSE IF Shards(b, t) = {} THEN Reply([b EXCEPT !.tst[t] = "aborted"], id, "ok", 0)
  ELSE LET N == { s \in Shards(b, t) : b.ss[t][s] # "rolled_back" }
           A == Chosen(N, dn, obs, t)
       IN [ b |-> [b EXCEPT !.ss[t] = [s \in BSh |-> IF s \in A THEN "rolling_back" ELSE @[s]]],
            calls |-> [i \in 1..Cardinality(A) |-> Call("rollback", SetSeq(A)[i], t, id)],
            cbs |-> Unreach(A, dn, id) ]

\* Results of the broker's own recovery operations (id 0) go to the caller of
\* recover (b.rid), or start the next step of the recovery of the ticket.
RecoveryStep(r, kind, t, dn, obs) ==
  IF r.cbs = <<>> THEN r
  ELSE IF r.cbs[1][2] # "ok" THEN
    [r EXCEPT !.cbs = <<<<r.b.rid, CASE kind = "commit" -> "commit_error"
                                     [] kind = "rollback" -> "rollback_error"
                                     [] OTHER -> "finish_error", 0>>>>]
  ELSE IF kind = "finish" THEN
    [r EXCEPT !.cbs = IF \A u \in BTk : r.b.tst[u] = "none"
                      THEN <<<<r.b.rid, "ok", 0>>>> ELSE <<>>]
  ELSE LET f == BFinish(r.b, RecId, t, dn, obs)
           g == IF f.cbs = <<>> THEN f
                ELSE [f EXCEPT !.cbs =
                        IF f.cbs[1][2] # "ok" THEN <<<<f.b.rid, "finish_error", 0>>>>
                        ELSE IF \A u \in BTk : f.b.tst[u] = "none"
                        THEN <<<<f.b.rid, "ok", 0>>>> ELSE <<>>]
       IN [g EXCEPT !.calls = r.calls \o @]

Route(r, c, kind, dn, obs) == IF c.id = RecId THEN RecoveryStep(r, kind, c.t, dn, obs) ELSE r

CommitReply(b0, c, res, dn, obs) ==
  LET t == c.t
      b == [b0 EXCEPT !.ss[t][c.s] = IF @ = "none" THEN "begun" ELSE @]
  IN IF b0.tst[t] = "none" THEN Reply(b0, c.id, "unknown_ticket", 0)
     ELSE IF b0.tst[t] = "begun" THEN Reply(b0, c.id, "not_prepared", 0)
     ELSE IF b0.tst[t] # "prepared" THEN Reply(b0, c.id, b0.tst[t], 0)
     ELSE IF b.ss[t][c.s] # "committing" THEN Reply(b, c.id, "invalid_shard_state", 0)
     ELSE IF res # "ok" THEN Reply(b, c.id, "commit_error", 0)
     ELSE LET b1 == [b EXCEPT !.ss[t][c.s] = "committed"]
          IN IF \E s \in Shards(b1, t) : b1.ss[t][s] # "committed" THEN Silent(b1)
             ELSE Reply([b1 EXCEPT !.tst[t] = "committed"], c.id, "ok", 0)

FinishReply(b0, c, res) ==
  LET t == c.t
      b == [b0 EXCEPT !.ss[t][c.s] = IF @ = "none" THEN "begun" ELSE @]
  IN IF b0.tst[t] = "none" THEN Reply(b0, c.id, "unknown_ticket", 0)
     ELSE IF b0.tst[t] # "committed" THEN Reply(b0, c.id, b0.tst[t], 0)
     ELSE IF b.ss[t][c.s] # "finishing" THEN Reply(b, c.id, "invalid_shard_state", 0)
     ELSE IF res # "ok" THEN Reply(b, c.id, "finish_error", 0)
     ELSE LET b1 == [b EXCEPT !.ss[t][c.s] = "finished"]
          IN IF \E s \in Shards(b1, t) : b1.ss[t][s] # "finished" THEN Silent(b1)
             ELSE Reply(Erase(b1, t), c.id, "ok", 0)

RollbackReply(b0, c, res) ==
  LET t == c.t
      b == [b0 EXCEPT !.ss[t][c.s] = IF @ = "none" THEN "begun" ELSE @]
  IN IF b0.tst[t] = "none" THEN Reply(b0, c.id, "unknown_ticket", 0)
     ELSE IF b0.tst[t] # "begun" THEN Reply(b0, c.id, b0.tst[t], 0)
     ELSE IF b.ss[t][c.s] # "rolling_back" THEN Reply(b, c.id, "invalid_shard_state", 0)
     ELSE IF res # "ok" THEN Reply(b, c.id, "rollback_error", 0)
     ELSE LET b1 == [b EXCEPT !.ss[t][c.s] = "rolled_back",
                              !.ks[t] = [k \in BKey |-> IF b.loc[k] = c.s THEN "n" ELSE @[k]]]
          IN IF \E s \in Shards(b1, t) : b1.ss[t][s] # "rolled_back" THEN Silent(b1)
             ELSE Reply([b1 EXCEPT !.tst[t] = "aborted"], c.id, "ok", 0)

\* Recovery: ask every shard for this broker's tickets...
Recover(b, id, dn, obs) ==
  IF \E t \in BTk : b.tst[t] # "none"
  THEN [Silent(b) EXCEPT !.cbs = <<<<id, "refused", 0>>>>]
  ELSE LET A == { s \in BSh : \A r \in BSh : r < s => r \notin dn }   \* in order
       IN [ b |-> [b EXCEPT !.rec = NoRec, !.rid = id],
            calls |-> [i \in 1..Cardinality(A) |-> Call("tickets", i - 1, 0, id)],
            cbs |-> IF A \cap dn # {} THEN <<<<id, "refused", 0>>>> ELSE <<>> ]

\* ... and once all have answered, complete every ticket.
RECURSIVE RecoverAll(_, _, _, _)
RecoverAll(r, ts, dn, obs) ==
  IF ts = {} THEN r
  ELSE LET t == CHOOSE x \in ts : TRUE
           b == r.b
           n == { s \in Shards(b, t) : b.ss[t][s] = "committed" }
           st(x) == [b EXCEPT !.tst[t] = x]
           one == IF n = Shards(b, t)
                  THEN RecoveryStep(BFinish(st("committed"), RecId, t, dn, obs), "finish", t, dn, obs)
                  ELSE IF n # {}
                  THEN RecoveryStep(DoCommit(st("prepared"), RecId, t, dn, obs), "commit", t, dn, obs)
                  ELSE RecoveryStep(BRollback(st("begun"), RecId, t, dn, obs), "rollback", t, dn, obs)
       IN RecoverAll([b |-> one.b, calls |-> r.calls \o one.calls, cbs |-> r.cbs \o one.cbs],
                     ts \ {t}, dn, obs)

\* l: set of <<ticket, state on the shard>>
TicketsReply(b, c, res, l, dn, obs) ==
  IF res # "ok" THEN Reply(b, c.id, "get_tickets_error", 0)
  ELSE
  LET b1 == [b EXCEPT !.rec[c.s] = IF @ = {<<0, "no">>} THEN l ELSE @]
      all == { t \in BTk : \E s \in BSh : \E x \in b1.rec[s] : x[1] = t }
      StateOn(t, s) == IF \E x \in b1.rec[s] : x[1] = t
                       THEN (CHOOSE x \in b1.rec[s] : x[1] = t)[2] ELSE b1.ss[t][s]
      b2 == [b1 EXCEPT !.ss = [t \in BTk |-> [s \in BSh |-> StateOn(t, s)]],
                       \* until it is decided below, a ticket counts as begun
                       !.tst = [t \in BTk |-> IF t \in all /\ @[t] = "none"
                                              THEN "begun" ELSE @[t]]]
      live == { t \in BTk : b2.tst[t] # "none" }
  IN IF \E s \in BSh : b1.rec[s] = {<<0, "no">>} THEN Silent(b1)
     ELSE IF live = {} THEN Reply(b1, c.id, "ok", 0)
     ELSE RecoverAll([b |-> [b2 EXCEPT !.rec = NoRec, !.rid = c.id], calls |-> <<>>, cbs |-> <<>>],
                     live, dn, obs)

HandleReply(b, c, res, v, l, dn, obs) ==
  CASE c.kind = "lock"     -> LockReply(b, c, res, v)
    [] c.kind = "prepare"  -> PrepareReply(b, c, res, dn, obs)
    [] c.kind = "commit"   -> Route(CommitReply(b, c, res, dn, obs), c, "commit", dn, obs)
    [] c.kind = "rollback" -> Route(RollbackReply(b, c, res), c, "rollback", dn, obs)
    [] c.kind = "finish"   -> Route(FinishReply(b, c, res), c, "finish", dn, obs)
    [] OTHER               -> TicketsReply(b, c, res, l, dn, obs)

\* C05: a ticket only ever asks a shard to commit when all are prepared.
CommitAfterPrepare(b) ==
  \A t \in BTk : \A s \in BSh : b.ss[t][s] \in {"committing", "committed"} =>
    \A r \in Shards(b, t) : b.ss[t][r] \notin {"begun", "preparing", "wounded", "rolling_back", "rolled_back"}
=============================================================================
