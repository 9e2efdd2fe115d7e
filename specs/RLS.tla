-------------------------------- MODULE RLS --------------------------------
(* A PArSEC runtime locking shard: strict two-phase locking over a key/value
   map with wound-wait conflict resolution and a prepare/commit/finish ticket
   life cycle.  The state is one record `s`; every public call of the shard is
   an operator  s |-> [s |-> new state, res |-> result, cbs |-> set of replies
   delivered to lock requests during the call].  Used by the exhaustive model
   (MCRLS), by trace validation (TraceRLS) and by the failover model.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NT, NK          \* tickets 1..NT (smaller = older), keys 1..NK

Tk  == 1..NT
Key == 1..NK
NoUpd == -1               \* no staged update for the key (0 = empty value)

Init0 ==
  [ val |-> [k \in Key |-> 0],                     \* committed value
    wr  |-> [k \in Key |-> 0],                     \* write holder, 0 = none
    rd  |-> [k \in Key |-> {}],                    \* read holders
    q   |-> [k \in Key |-> [t \in Tk |-> "n"]],    \* waiting requests n/r/w
    st  |-> [t \in Tk |-> "none"],                 \* ticket life cycle
    br  |-> [t \in Tk |-> 0],                      \* managing broker
    upd |-> [t \in Tk |-> [k \in Key |-> NoUpd]],  \* staged updates
    wby |-> [t \in Tk |-> <<0, 0>>] ]              \* wounding ticket, key

Held(s, t, k) == IF s.wr[k] = t THEN "w"
                 ELSE IF t \in s.rd[k] THEN "r" ELSE "n"
Waiting(s, k) == { t \in Tk : s.q[k][t] # "n" }
QueuedKeys(s, t) == { k \in Key : s.q[k][t] # "n" }
HeldKeys(s, t)   == { k \in Key : Held(s, t, k) # "n" }
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Grant from the head of k's queue (oldest ticket first) while possible.
RECURSIVE Acquire(_, _, _)
Acquire(s, k, acc) ==
  IF Waiting(s, k) = {} THEN [s |-> s, cbs |-> acc]
  ELSE LET h == Min(Waiting(s, k))
           grant == <<h, k, "g", s.val[k], 0>>
       IN IF s.q[k][h] = "r"
          THEN IF s.wr[k] # 0 THEN [s |-> s, cbs |-> acc]
               ELSE Acquire([s EXCEPT !.rd[k] = @ \cup {h}, !.q[k][h] = "n"],
                            k, acc \cup {grant})
          ELSE IF s.wr[k] # 0 \/ ~(s.rd[k] \subseteq {h})
               THEN [s |-> s, cbs |-> acc]
               ELSE [s |-> [s EXCEPT !.rd[k] = {}, !.wr[k] = h, !.q[k][h] = "n"],
                     cbs |-> acc \cup {grant}]

RECURSIVE AcquireAll(_, _, _)
AcquireAll(s, ks, acc) ==
  IF ks = {} THEN [s |-> s, cbs |-> acc]
  ELSE LET k == Min(ks)
           a == Acquire(s, k, acc)
       IN AcquireAll(a.s, ks \ {k}, a.cbs)

\* Drop every lock and waiting request of t; waiting requests are answered
\* "wounded".
Release(s, t) ==
  [ s   |-> [s EXCEPT
               !.wr = [k \in Key |-> IF @[k] = t THEN 0 ELSE @[k]],
               !.rd = [k \in Key |-> @[k] \ {t}],
               !.q  = [k \in Key |-> [@[k] EXCEPT ![t] = "n"]]],
    cbs |-> { <<t, k, "w", s.wby[t][1], s.wby[t][2]>> : k \in QueuedKeys(s, t) },
    ks  |-> HeldKeys(s, t) \cup QueuedKeys(s, t) ]

\* Tickets a request of t conflicts with and that are younger than t.
Younger(s, t, k, ty) ==
  { u \in Tk : /\ u > t
               /\ \/ s.wr[k] = u
                  \/ ty = "w" /\ u \in s.rd[k] }

RECURSIVE Wound(_, _, _, _, _, _)
Wound(s, us, t, k, ks, cbs) ==
  IF us = {} THEN [s |-> s, ks |-> ks, cbs |-> cbs]
  ELSE LET u  == Min(us)
           s1 == [s EXCEPT !.st[u] = "wounded", !.wby[u] = <<t, k>>]
           r  == Release(s1, u)
       IN IF s.st[u] = "prepared"
          THEN Wound(s, us \ {u}, t, k, ks, cbs)
          ELSE Wound(r.s, us \ {u}, t, k, ks \cup r.ks, cbs \cup r.cbs)

Refuse(s, t, k, code) ==
  [s |-> s, res |-> "ok",
   cbs |-> {<<t, k, code, IF code = "wounded" THEN s.wby[t][1] ELSE 0,
                          IF code = "wounded" THEN s.wby[t][2] ELSE 0>>}]

\* `first` tells the shard it has not seen the ticket before.
TryLock(s0, t, b, k, ty, first) ==
  IF s0.st[t] = "none" /\ ~first THEN Refuse(s0, t, k, "unknown_ticket")
  ELSE
  LET s == IF s0.st[t] = "none" THEN [s0 EXCEPT !.st[t] = "begun"] ELSE s0
  IN IF s.st[t] \in {"prepared", "committed", "wounded"}
     THEN Refuse(s, t, k, s.st[t])
     ELSE IF Held(s, t, k) = "w" \/ (Held(s, t, k) = "r" /\ ty = "r")
     THEN Refuse(s, t, k, "lock_held")
     ELSE IF s.q[k][t] # "n" THEN Refuse(s, t, k, "lock_queued")
     ELSE LET s1 == [s EXCEPT !.br[t] = b, !.q[k][t] = ty]
              w  == Wound(s1, Younger(s1, t, k, ty), t, k, {k}, {})
              a  == AcquireAll(w.s, w.ks, w.cbs)
          IN [s |-> a.s, res |-> "ok", cbs |-> a.cbs]

\* u: [Key -> value or NoUpd]
Prepare(s, t, u) ==
  LET ks   == { k \in Key : u[k] # NoUpd }
      code == IF s.st[t] = "none" THEN "unknown_ticket"
              ELSE IF s.st[t] # "begun" THEN s.st[t]
              ELSE IF QueuedKeys(s, t) # {} THEN "lock_queued"
              ELSE IF \A k \in ks : Held(s, t, k) = "w" THEN "ok"
              ELSE "not_write_locked"
  IN [ s |-> IF code # "ok" THEN s
             ELSE [s EXCEPT !.st[t] = "prepared", !.upd[t] = u],
       res |-> code, cbs |-> {} ]

Commit(s, t) ==
  IF s.st[t] # "prepared"
  THEN [s |-> s, res |-> IF s.st[t] = "none" THEN "unknown_ticket" ELSE "not_prepared",
        cbs |-> {}]
  ELSE LET s1 == [s EXCEPT !.val = [k \in Key |-> IF s.upd[t][k] = NoUpd
                                                 THEN @[k] ELSE s.upd[t][k]],
                           !.st[t] = "committed",
                           !.upd[t] = [k \in Key |-> NoUpd]]
           r  == Release(s1, t)
           a  == AcquireAll(r.s, r.ks, {})
       IN [s |-> a.s, res |-> "ok", cbs |-> a.cbs]

Forget(s, t) == [s EXCEPT !.st[t] = "none", !.br[t] = 0, !.wby[t] = <<0, 0>>,
                          !.upd[t] = [k \in Key |-> NoUpd]]

Rollback(s, t) ==
  IF s.st[t] = "none" THEN [s |-> s, res |-> "unknown_ticket", cbs |-> {}]
  ELSE LET r == Release(s, t)
           a == AcquireAll(r.s, r.ks, r.cbs)
       IN [s |-> Forget(a.s, t), res |-> "ok", cbs |-> a.cbs]

Finish(s, t) ==
  IF s.st[t] = "none" THEN [s |-> s, res |-> "unknown_ticket", cbs |-> {}]
  ELSE IF s.st[t] # "committed" THEN [s |-> s, res |-> "not_committed", cbs |-> {}]
  ELSE [s |-> Forget(s, t), res |-> "ok", cbs |-> {}]

Tickets(s, b) == { <<t, s.st[t]>> : t \in { u \in Tk : s.st[u] # "none" /\ s.br[u] = b } }

----------------------------------------------------------------------------
(* Properties of a shard state, checked on the model in every state and on
   every state reached by a validated trace.                                *)

\* C01: one writer, or any number of readers.
Exclusion(s) == \A k \in Key : s.wr[k] # 0 => s.rd[k] = {}

\* C01: only live tickets hold locks; prepared tickets hold a write lock on
\* every key they are going to update.
HoldersLive(s) ==
  /\ \A t \in Tk : s.st[t] \notin {"begun", "prepared"} =>
       HeldKeys(s, t) = {} /\ QueuedKeys(s, t) = {}
  /\ \A t \in Tk : s.st[t] = "prepared" =>
       /\ QueuedKeys(s, t) = {}
       /\ \A k \in Key : s.upd[t][k] # NoUpd => s.wr[k] = t

Conflict(s, t, k, h) ==
  /\ h # t
  /\ \/ s.wr[k] = h
     \/ s.q[k][t] = "w" /\ h \in s.rd[k]

\* C02: a waiting request is only ever waiting for older tickets or for
\* prepared ones (which never wait): no cycle of waiting tickets.
WaitOnlyOlder(s) ==
  \A k \in Key : \A t \in Waiting(s, k) : \A h \in Tk :
    Conflict(s, t, k, h) => h < t \/ s.st[h] = "prepared"

\* C02: nothing waits needlessly: the oldest waiter of a key has a conflict.
NoNeedlessWait(s) ==
  \A k \in Key : Waiting(s, k) # {} =>
    \E h \in Tk : Conflict(s, Min(Waiting(s, k)), k, h)

\* C02: some waiting/begun ticket can always make progress.
Progress(s) ==
  (\E t \in Tk : QueuedKeys(s, t) # {}) =>
    \/ \E t \in Tk : s.st[t] = "prepared"
    \/ \E t \in Tk : s.st[t] = "begun" /\ QueuedKeys(s, t) = {}

\* C03: staged updates exist exactly for prepared tickets.
StagedOnlyPrepared(s) ==
  \A t \in Tk : s.st[t] # "prepared" => \A k \in Key : s.upd[t][k] = NoUpd
=============================================================================
