------------------------------- MODULE Ledger -------------------------------
(* The programmable ledger as its users see it: transactions that read and
   write keys and then happen at one moment, or not at all.  What the shards do
   for a transaction (prepare, commit, roll back, finish) is observed, to decide
   when it happens and that it happens everywhere.

   A step takes one observation x = [x, t, a, res, k, v]:
     begun/read/committed/rolledback/finished   results given to a client
     recovered                                  result of a broker's recovery
     lock/prepare/commit/rollback/finish        executed by shard a
   and returns [st |-> new state, bad |-> name of the broken clause or ""].  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS LT, LK          \* numbers of tickets and keys
LTk == 1..LT
LKey == 1..LK
None == -1

L0 == [ db   |-> [k \in LKey |-> 0],            \* the ledger
        hist |-> [k \in LKey |-> {0}],          \* every value it ever had
        own  |-> [t \in LTk |-> 0],             \* broker, 0 = not begun
        rd   |-> [t \in LTk |-> [k \in LKey |-> None]],
        wr   |-> [t \in LTk |-> [k \in LKey |-> None]],
        tou  |-> [t \in LTk |-> {}],            \* shards that know it
        prep |-> [t \in LTk |-> {}],            \* shards that prepared it
        com  |-> [t \in LTk |-> {}],            \* shards that committed it
        fin  |-> [t \in LTk |-> {}],            \* shards that finished it
        at   |-> [k \in LKey |-> None],          \* the shard that holds a key
        lost |-> {} ]                           \* its broker stopped

Known(t) == t \in LTk
Ret(st, bad) == [st |-> st, bad |-> bad]
NoVals == [k \in LKey |-> None]

Wants(st, t, us) ==      \* the client asks to commit these writes
  [st EXCEPT !.wr[t] = [k \in LKey |-> IF \E i \in DOMAIN us : us[i][1] = k
                          THEN us[CHOOSE i \in DOMAIN us : us[i][1] = k][2] ELSE None]]

Observe(st, x) ==
  LET t == x.t IN
  CASE x.x = "begun" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF st.own[t] # 0 THEN Ret(st, "ticket-reuse")
         ELSE Ret([st EXCEPT !.own[t] = x.a], "")
    [] x.x = "read" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF x.v \notin st.hist[x.k] THEN Ret(st, "dirty-read")
         ELSE IF st.rd[t][x.k] \notin {None, x.v} /\ t \notin st.lost THEN Ret(st, "changed-read")
         ELSE Ret([st EXCEPT !.rd[t][x.k] = x.v], "")
    [] x.x = "lock" ->
         IF x.k \notin LKey \/ st.at[x.k] \notin {None, x.a} THEN Ret(st, "moved-key")
         ELSE Ret([st EXCEPT !.tou[t] = @ \cup {x.a}, !.at[x.k] = x.a], "")
    [] x.x = "prepare" ->
         Ret([st EXCEPT !.prep[t] = IF x.res = "ok" THEN @ \cup {x.a} ELSE @], "")
    [] x.x = "commit" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF ~(st.tou[t] \subseteq st.prep[t]) THEN Ret(st, "commit-before-prepare")
         ELSE IF st.com[t] # {} THEN Ret([st EXCEPT !.com[t] = @ \cup {x.a}], "")
         ELSE \* the transaction happens now
              IF \E k \in LKey : st.rd[t][k] \notin {None, st.db[k]} THEN Ret(st, "stale-read")
              ELSE Ret([st EXCEPT
                     !.com[t] = {x.a},
                     !.db = [k \in LKey |-> IF st.wr[t][k] = None THEN @[k] ELSE st.wr[t][k]],
                     !.hist = [k \in LKey |-> IF st.wr[t][k] = None THEN @[k]
                                              ELSE @[k] \cup {st.wr[t][k]}]], "")
    [] x.x = "rollback" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF st.com[t] # {} THEN Ret(st, "rollback-after-commit")
         ELSE Ret([st EXCEPT !.tou[t] = @ \ {x.a}, !.prep[t] = @ \ {x.a}], "")
    [] x.x = "finish" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF ~(st.tou[t] \subseteq st.com[t]) THEN Ret(st, "finish-before-commit")
         ELSE Ret([st EXCEPT !.fin[t] = @ \cup {x.a}], "")
    [] x.x = "committed" ->
         IF x.res = "ok"
         THEN IF st.com[t] # st.tou[t] THEN Ret(st, "early-success") ELSE Ret(st, "")
         ELSE IF st.com[t] # {} THEN Ret(st, "false-failure") ELSE Ret(st, "")
    [] x.x = "rolledback" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF st.com[t] # {} \/ st.tou[t] # {} THEN Ret(st, "rollback-incomplete")
         ELSE Ret([st EXCEPT !.rd[t] = NoVals, !.wr[t] = NoVals], "")
    [] x.x = "finished" ->
         IF x.res # "ok" THEN Ret(st, "")
         ELSE IF st.fin[t] # st.tou[t] THEN Ret(st, "finish-incomplete")
         ELSE Ret(st, "")
    [] x.x = "recovered" ->
         LET mine == { u \in st.lost : st.own[u] = x.a } IN
         IF x.res # "ok" THEN Ret(st, "recover-failed")
         ELSE IF \E u \in mine : st.com[u] # {} /\ st.com[u] # st.tou[u]
         THEN Ret(st, "recover-partial")
         ELSE IF \E u \in mine : IF st.com[u] = {} THEN st.tou[u] # {}
                                 ELSE ~(st.tou[u] \subseteq st.fin[u])
         THEN Ret(st, "recover-leftover") ELSE Ret(st, "")
    [] OTHER -> Ret(st, "")

RECURSIVE ObserveAll(_, _)
ObserveAll(st, xs) ==
  IF xs = <<>> THEN Ret(st, "")
  ELSE LET x == Head(xs)
           r == IF x.x # "recovered" /\ x.x # "begun" /\ ~Known(x.t) THEN Ret(st, "")
                ELSE Observe(st, x)
       IN IF r.bad # "" THEN r ELSE ObserveAll(r.st, Tail(xs))

Stop(st, b) == [st EXCEPT !.lost = @ \cup { t \in LTk : st.own[t] = b }]
=============================================================================
