------------------------------ MODULE MCLedger ------------------------------
(* The whole programmable ledger: brokers (Broker) and shards (RLS) connected
   by in-order channels, clients running transactions, and brokers that stop
   at any moment and recover.  Checks that commits are atomic (C05), that
   recovery completes every transaction (C06) and that committed transactions
   are serializable (C07).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NTick, NShard, NKey, NBrk, MaxCrash, Types

R == INSTANCE RLS WITH NT <- NTick, NK <- NKey
B == INSTANCE Broker WITH BT <- NTick, BS <- NShard, BK <- NKey, RecId <- <<0, "rec", 0>>

Tick == 1..NTick
Sh == 0..(NShard - 1)
Keys == 1..NKey
Brk == 1..NBrk
Home(t) == 1 + (t % NBrk)
Loc == [k \in Keys |-> k % NShard]

VARIABLES br, sh, lk, req, rep,       \* brokers, shards, open lock calls, channels
          cl,                         \* what each client is doing
          dec, db, rd, wr, err,       \* history: decided, ledger, reads, writes
          crashes, up, h
vars == <<br, sh, lk, req, rep, cl, dec, db, rd, wr, err, crashes, up, h>>
view == <<br, sh, lk, req, rep, cl, dec, db, rd, wr, err, crashes, up>>

NoVal == -1
Init ==
  /\ br = [b \in Brk |-> B!Broker0(Loc)]
  /\ sh = [s \in Sh |-> R!Init0]
  /\ lk = [s \in Sh |-> {}]
  /\ req = [b \in Brk |-> [s \in Sh |-> <<>>]]
  /\ rep = [b \in Brk |-> [s \in Sh |-> <<>>]]
  /\ cl = [t \in Tick |-> "none"]
  /\ dec = [t \in Tick |-> "no"]
  /\ db = [k \in Keys |-> 0]
  /\ rd = [t \in Tick |-> [k \in Keys |-> NoVal]]
  /\ wr = [t \in Tick |-> [k \in Keys |-> NoVal]]
  /\ err = "" /\ crashes = 0 /\ up = [b \in Brk |-> "up"] /\ h = ""

\* Results given to clients.  id names the ticket and the operation.
RECURSIVE Told(_, _, _)
Told(c, rdv, cbs) ==          \* client states and reads after callbacks
  IF cbs = <<>> THEN <<c, rdv>>
  ELSE LET x == Head(cbs)
           t == x[1][1]  op == x[1][2]  res == x[2]
       IN Told(IF t = 0 THEN c ELSE
               [c EXCEPT ![t] =
                 CASE op = "lock" /\ res = "ok" -> IF @ = "locking" THEN "act" ELSE @
                   [] op = "lock" -> IF @ = "locking" THEN "failed" ELSE @
                   [] op = "commit" -> IF res = "ok" THEN "done"
                                       ELSE IF @ = "committing" THEN "failed" ELSE @
                   [] op = "rollback" -> IF res = "ok" THEN "gone" ELSE @
                   [] op = "finish" -> IF res = "ok" THEN "end" ELSE @
                   [] OTHER -> @],
               IF op = "lock" /\ res = "ok" THEN [rdv EXCEPT ![t][x[1][3]] = x[3]] ELSE rdv,
               Tail(cbs))

RECURSIVE Push(_, _)
Push(q, calls) == IF calls = <<>> THEN q
                  ELSE Push([q EXCEPT ![Head(calls).s] = Append(@, Head(calls))], Tail(calls))

\* A step of broker b: r is the result of a Broker operator.
BrokerStep(b, r) ==
  LET told == Told(cl, rd, r.cbs) IN
  /\ br' = [br EXCEPT ![b] = r.b]
  /\ req' = [req EXCEPT ![b] = Push(@, r.calls)]
  /\ cl' = told[1] /\ rd' = told[2]
  /\ up' = [up EXCEPT ![b] = IF \E i \in DOMAIN r.cbs : r.cbs[i][1][1] = 0 /\ r.cbs[i][2] = "ok"
                             THEN "up" ELSE @]
  /\ err' = IF \E i \in DOMAIN r.cbs : r.cbs[i][1][2] = "commit" /\ r.cbs[i][2] = "ok" /\
               LET t == r.cbs[i][1][1] IN
               \/ dec[t] = "no"
               \/ \E s \in Sh : sh[s].st[t] \in {"begun", "prepared", "wounded"}
            THEN "success-without-commit" ELSE err
  /\ UNCHANGED <<sh, lk, dec, db>>

S(x) == ToString(x)
Log(x) == h' = h \o x \o ";"
Alive(t) == up[Home(t)] = "up"

ClBegin(t) == /\ cl[t] = "none" /\ Alive(t)
              /\ \A u \in Tick : u < t => cl[u] # "none"
              /\ LET r == B!Begin(br[Home(t)], <<t, "begin", 0>>, t, t, "ok")
                 IN /\ br' = [br EXCEPT ![Home(t)] = r.b]
                    /\ cl' = [cl EXCEPT ![t] = "act"]
                    /\ Log("begin " \o S(t) \o " " \o S(Home(t)))
              /\ UNCHANGED <<sh, lk, req, rep, dec, db, rd, wr, err, crashes, up>>

Locked(t, k) == br[Home(t)].ks[t][k] = "ld"
ClLock(t, k, ty) ==
  /\ cl[t] \in {"act", "gone"} /\ Alive(t)         \* gone: rolled back, runs again
  /\ ~(Locked(t, k) /\ (br[Home(t)].kt[t][k] = "w" \/ ty = "r"))
  /\ LET r == B!Lock(br[Home(t)], <<t, "lock", k>>, t, k, ty, TRUE, {})
         told == Told([cl EXCEPT ![t] = "locking"],
                      IF cl[t] = "gone" THEN [rd EXCEPT ![t] = [j \in Keys |-> NoVal]] ELSE rd,
                      r.cbs)
     IN /\ br' = [br EXCEPT ![Home(t)] = r.b]
        /\ req' = [req EXCEPT ![Home(t)] = Push(@, r.calls)]
        /\ cl' = told[1] /\ rd' = told[2]
  /\ Log("lock " \o S(t) \o " " \o S(k) \o " " \o ty)
  /\ UNCHANGED <<sh, lk, rep, dec, db, wr, err, crashes, up>>

Wlocked(t) == { k \in Keys : Locked(t, k) /\ br[Home(t)].kt[t][k] = "w" }
ClCommit(t) ==
  /\ cl[t] = "act" /\ Alive(t)
  /\ \E k \in Keys : Locked(t, k)
  /\ LET u == { <<k, 10 * t + k>> : k \in Wlocked(t) }
         r == B!BCommit(br[Home(t)], <<t, "commit", 0>>, t, u, {}, {})
         told == Told([cl EXCEPT ![t] = "committing"], rd, r.cbs)
     IN /\ br' = [br EXCEPT ![Home(t)] = r.b]
        /\ req' = [req EXCEPT ![Home(t)] = Push(@, r.calls)]
        /\ cl' = told[1] /\ rd' = told[2]
        /\ wr' = [wr EXCEPT ![t] = [k \in Keys |-> IF k \in Wlocked(t) THEN 10 * t + k ELSE NoVal]]
  /\ Log("commit " \o S(t))
  /\ UNCHANGED <<sh, lk, rep, dec, db, err, crashes, up>>

ClRollback(t) ==
  /\ cl[t] \in {"act", "failed", "committing", "locking"} /\ Alive(t)
  /\ br[Home(t)].tst[t] = "begun"
  /\ \A s \in Sh : br[Home(t)].ss[t][s] # "rolling_back"
  /\ LET r == B!BRollback(br[Home(t)], <<t, "rollback", 0>>, t, {}, {})
     IN /\ br' = [br EXCEPT ![Home(t)] = r.b]
        /\ req' = [req EXCEPT ![Home(t)] = Push(@, r.calls)]
        /\ cl' = Told([cl EXCEPT ![t] = "rolling"], rd, r.cbs)[1]
  /\ Log("rollback " \o S(t))
  /\ UNCHANGED <<sh, lk, rep, dec, db, rd, wr, err, crashes, up>>

ClFinish(t) ==
  /\ cl[t] \in {"done", "gone"} /\ Alive(t)
  /\ \A s \in Sh : br[Home(t)].ss[t][s] # "finishing"
  /\ BrokerStep(Home(t), B!BFinish(br[Home(t)], <<t, "finish", 0>>, t, {}, {}))
  /\ Log("finish " \o S(t))
  /\ UNCHANGED <<rep, wr, crashes>>

\* Shard s executes the next request of broker b.
Upd(us) == [k \in Keys |-> IF \E x \in us : x[1] = k
                           THEN (CHOOSE x \in us : x[1] = k)[2] ELSE R!NoUpd]
Code(x) == IF x = "ok" THEN "ok" ELSE "S:" \o (IF x = "w" THEN "wounded" ELSE x)
HomeB(b) == b
Deliver(b, s) ==
  /\ req[b][s] # <<>>
  /\ LET c == Head(req[b][s])
         r == CASE c.kind = "lock" -> R!TryLock(sh[s], c.t, b, c.k, c.ty, c.first)
                [] c.kind = "prepare" -> R!Prepare(sh[s], c.t, Upd(c.u))
                [] c.kind = "commit" -> R!Commit(sh[s], c.t)
                [] c.kind = "rollback" -> R!Rollback(sh[s], c.t)
                [] c.kind = "finish" -> R!Finish(sh[s], c.t)
                [] OTHER -> [s |-> sh[s], res |-> "ok", cbs |-> {}]
         open == lk[s] \cup (IF c.kind = "lock" THEN {c} ELSE {})
         \* replies to lock requests, as <<call, result, value>>
         own(x) == c.kind = "lock" /\ x[1] = c.t /\ x[2] = c.k
         answered == { IF own(x) THEN c ELSE CHOOSE y \in lk[s] : y.t = x[1] /\ y.k = x[2] : x \in r.cbs }
         of(y) == CHOOSE x \in r.cbs : IF own(x) THEN y = c ELSE y # c /\ y.t = x[1] /\ y.k = x[2]
         lrep == { [c |-> y, res |-> IF of(y)[3] = "g" THEN "ok" ELSE Code(of(y)[3]),
                    v |-> IF of(y)[3] = "g" THEN of(y)[4] ELSE 0, l |-> {}] : y \in answered }
         orep == IF c.kind = "lock" THEN {}
                 ELSE { [c |-> c, res |-> Code(r.res), v |-> 0,
                         l |-> IF c.kind = "tickets" THEN R!Tickets(r.s, b) ELSE {}] }
         Bof(y) == IF y.kind = "tickets" THEN b ELSE Home(y.t)
         \* the shard calls lock replies first
         add(q, x) == [q EXCEPT ![Bof(x.c)][s] = Append(@, x)]
         RECURSIVE AddAll(_, _)
         AddAll(q, X) == IF X = {} THEN q
                         ELSE LET x == CHOOSE y \in X : TRUE IN AddAll(add(q, x), X \ {x})
         live == { x \in lrep \cup orep : x.c.id # <<>> }   \* the asker is still there
         first == dec[c.t] = "no"
     IN /\ sh' = [sh EXCEPT ![s] = r.s]
        /\ lk' = [lk EXCEPT ![s] = open \ answered]
        /\ req' = [req EXCEPT ![b][s] = Tail(@)]
        /\ rep' = AddAll(AddAll(rep, live \cap lrep), live \cap orep)
        /\ IF c.kind = "commit" /\ r.res = "ok"
           THEN /\ dec' = [dec EXCEPT ![c.t] = "yes"]
                /\ db' = IF first THEN [k \in Keys |-> IF wr[c.t][k] = NoVal THEN db[k] ELSE wr[c.t][k]] ELSE db
                /\ err' = IF ~first THEN err
                          ELSE IF \E k \in Keys : rd[c.t][k] # NoVal /\ rd[c.t][k] # db[k]
                          THEN "stale-read"
                          ELSE IF \E k \in Keys : rd[c.t][k] # NoVal /\ sh[Loc[k]].st[c.t] # "prepared"
                          THEN "commit-before-prepare" ELSE err
           ELSE /\ UNCHANGED <<dec, db>>
                /\ err' = IF c.kind = "rollback" /\ r.res = "ok" /\ dec[c.t] = "yes"
                          THEN "rollback-after-commit" ELSE err
  /\ Log("d " \o S(b) \o " " \o S(s))
  /\ UNCHANGED <<br, cl, rd, wr, crashes, up>>

\* Broker b receives the next reply of shard s.
Receive(b, s) ==
  /\ rep[b][s] # <<>>
  /\ LET x == Head(rep[b][s])
     IN BrokerStep(b, B!HandleReply(br[b], x.c, x.res, x.v, x.l, {}, {}))
  /\ rep' = [rep EXCEPT ![b][s] = Tail(@)]
  /\ Log("r " \o S(b) \o " " \o S(s))
  /\ UNCHANGED <<wr, crashes>>

\* Broker b stops.  Of what it sent, each shard gets a prefix: all or nothing
\* here (the rest is reached by delivering before the stop).
Orphan(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.id = <<>>]]
Crash(b, keep) ==
  /\ crashes < MaxCrash
  /\ \E t \in Tick : Home(t) = b /\ cl[t] # "none"
  /\ crashes' = crashes + 1
  /\ br' = [br EXCEPT ![b] = B!Broker0(Loc)]
  /\ req' = [req EXCEPT ![b] = [s \in Sh |-> IF keep THEN Orphan(req[b][s]) ELSE <<>>]]
  /\ rep' = [rep EXCEPT ![b] = [s \in Sh |-> <<>>]]
  /\ lk' = [s \in Sh |-> { IF Home(c.t) = b THEN [c EXCEPT !.id = <<>>] ELSE c : c \in lk[s] }]
  /\ up' = [up EXCEPT ![b] = "down"]
  /\ cl' = [t \in Tick |-> IF Home(t) = b /\ cl[t] # "none" THEN "lost" ELSE cl[t]]
  /\ Log("crash " \o S(b) \o " " \o (IF keep THEN "1" ELSE "0"))
  /\ UNCHANGED <<sh, dec, db, rd, wr, err>>

StartRecovery(b) ==
  /\ up[b] = "down"
  /\ \A s \in Sh : req[b][s] = <<>>     \* what was sent before has arrived
  /\ LET r == B!Recover(br[b], <<0, "recover", 0>>, {}, {})
     IN /\ br' = [br EXCEPT ![b] = r.b]
        /\ req' = [req EXCEPT ![b] = Push(@, [i \in DOMAIN r.calls |-> r.calls[i]])]
  /\ up' = [up EXCEPT ![b] = "recovering"]
  /\ Log("recover " \o S(b))
  /\ UNCHANGED <<sh, lk, rep, cl, dec, db, rd, wr, err, crashes>>

Next ==
  \/ \E t \in Tick : \/ ClBegin(t) \/ ClCommit(t) \/ ClRollback(t) \/ ClFinish(t)
                     \/ \E k \in Keys, ty \in Types : ClLock(t, k, ty)
  \/ \E b \in Brk : \/ \E s \in Sh : Deliver(b, s) \/ Receive(b, s)
                    \/ Crash(b, TRUE) \/ Crash(b, FALSE) \/ StartRecovery(b)

Spec == Init /\ [][Next]_vars
Emit == PrintT("H " \o h')

NoError == err = ""
Quiet(b) == \A s \in Sh : req[b][s] = <<>> /\ rep[b][s] = <<>>
\* C06: when a broker has recovered and nothing is under way, no shard knows
\* any of the lost transactions, and decided ones are in the ledger everywhere.
Recovered ==
  \A b \in Brk : up[b] = "up" /\ Quiet(b) =>
    \A t \in Tick : Home(t) = b /\ cl[t] = "lost" => \A s \in Sh : sh[s].st[t] = "none"
\* C07: with no transaction half way, the shards hold exactly the ledger.
Contents ==
  (\A t \in Tick, s \in Sh : sh[s].st[t] # "prepared") =>
    \A k \in Keys : sh[Loc[k]].val[k] = db[k]
\* a stuck recovery
Progress ==
  \A b \in Brk : up[b] = "recovering" => ~(\A c \in Brk : Quiet(c))
Shards == \A s \in Sh : R!Exclusion(sh[s]) /\ R!HoldersLive(sh[s]) /\ R!WaitOnlyOlder(sh[s])
=============================================================================
