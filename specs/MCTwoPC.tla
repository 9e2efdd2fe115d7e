------------------------------ MODULE MCTwoPC ------------------------------
(* Batches run by a coordinator that may stop at any point, with messages of
   stopped coordinators delivered late and answers lost.                    *)
EXTENDS TwoPC
CONSTANTS NS, Case, MaxCrash, MaxLost
VARIABLES c, h, crashes, lost
vars == <<c, h, crashes, lost>>

\* Transactions over the seeded outputs 1..4; output ids are 100t + j.
T(id, ins, outs) == [id |-> id, ins |-> ins, outs |-> outs]
Txs == CASE Case = 1 -> << T(1, <<1, 2>>, <<101>>), T(2, <<2, 3>>, <<200, 201>>) >>
         [] Case = 2 -> << T(1, <<1, 2>>, <<101>>), T(2, <<2, 101>>, <<200>>), T(3, <<1>>, <<301>>) >>
         [] Case = 3 -> << T(1, <<1, 99>>, <<101>>), T(2, <<1, 2>>, <<200, 201>>) >>
         [] OTHER    -> << T(1, <<1>>, <<100>>), T(2, <<100, 2>>, <<200, 201>>), T(3, <<2>>, <<301>>) >>
Batches == CASE Case = 1 -> << <<1>>, <<2>> >>
             [] Case = 2 -> << <<1, 3>>, <<2>> >>
             [] Case = 3 -> << <<1, 2>>, <<2>> >>
             [] OTHER    -> << <<1, 2>>, <<3>> >>
Seed == {1, 2, 3, 4}
D == DOMAIN Batches

Init ==
  /\ c = [sh   |-> [s \in 1..NS |-> Shard0(NS, s - 1, 2, Seed)],
          log  |-> [d \in D |-> NoLog],
          ack  |-> [d \in D |-> << >>],
          seen |-> {}, gh |-> {}]
  /\ h = "" /\ crashes = 0 /\ lost = 0

S(x) == ToString(x)
RECURSIVE Names(_)
Names(q) == IF q = << >> THEN "" ELSE " " \o S(Head(q)) \o Names(Tail(q))

\* Batches are begun in order.
Start(d) ==
  /\ c.log[d].ph = "none"
  /\ \A e \in D : e < d => c.log[e].ph # "none"
  /\ c' = Logged(c, [d |-> d, kind |-> "prepare", txs |-> Sub(Txs, Batches[d])])
  /\ h' = h \o "batch" \o Names(Batches[d]) \o ";raft " \o S(d) \o ";"
  /\ UNCHANGED <<crashes, lost>>

Raft(d) ==
  \E r \in Reps(c, d) :
    /\ c' = [Logged(c, r) EXCEPT !.gh = IF r.kind = "discard" THEN { m \in @ : m.d # d } ELSE @]
    /\ h' = h \o "raft " \o S(d) \o ";"
    /\ UNCHANGED <<crashes, lost>>

Msg(d) ==
  \E m \in Sends(c, d) :
    LET r == Deliver(c.sh[m.s], m) IN
    \/ /\ c' = [c EXCEPT !.sh[m.s] = r.sh, !.ack[d] = Put(@, <<m.kind, m.s>>, r.res)]
       /\ h' = h \o "msg " \o S(d) \o " " \o S(m.s) \o ";"
       /\ UNCHANGED <<crashes, lost>>
    \/ /\ lost < MaxLost
       /\ c' = [c EXCEPT !.sh[m.s] = r.sh]
       /\ h' = h \o "lost " \o S(d) \o " " \o S(m.s) \o ";"
       /\ lost' = lost + 1
       /\ UNCHANGED crashes

\* The coordinator stops; the commands of some batches had reached the log; its
\* messages may still arrive.
Crash ==
  /\ crashes < MaxCrash
  /\ \E B \in SUBSET { d \in D : Reps(c, d) # {} } :
       LET RECURSIVE All(_, _)
           All(cc, X) == IF X = {} THEN cc
                         ELSE LET d == CHOOSE d \in X : TRUE
                              IN All(Logged(cc, CHOOSE r \in Reps(c, d) : TRUE), X \ {d})
           c2 == All(c, B)
           ms == UNION { Sends(c, d) : d \in D }
       IN /\ c' = [Takeover(c2) EXCEPT
                     !.gh = { m \in c.gh \cup ms : c2.log[m.d].ph \notin {"discard", "done"} }]
          /\ h' = h \o "crash" \o (IF B = {} THEN "" ELSE
                    LET RECURSIVE NB(_)
                        NB(X) == IF X = {} THEN ""
                                 ELSE LET d == CHOOSE d \in X : \A e \in X : d <= e
                                      IN " " \o S(d) \o NB(X \ {d})
                    IN NB(B)) \o ";raft 0;"
  /\ crashes' = crashes + 1
  /\ UNCHANGED lost

Ghost ==
  \E m \in c.gh :
    /\ c' = [c EXCEPT !.sh[m.s] = Deliver(@, m).sh, !.gh = @ \ {m}]
    /\ h' = h \o "ghost " \o S(m.d) \o " " \o S(m.s) \o " " \o m.kind \o ";"
    /\ UNCHANGED <<crashes, lost>>

Next == (\E d \in D : Start(d) \/ Raft(d) \/ Msg(d)) \/ Crash \/ Ghost
Spec == Init /\ [][Next]_vars
View == <<c, crashes, lost>>
Emit == PrintT("H " \o h')

Inv ==
  /\ NoDoubleSpend(c, Seed)
  /\ Quiet(c) => Final(c, Seed)
  /\ \A s \in 1..NS : ShardInv(c.sh[s])
  \* An apply is only ever sent for a batch the shard has prepared or applied.
  /\ \A d \in D : \A m \in Sends(c, d) :
       m.kind = "apply" => d \in DOMAIN c.sh[m.s].prep \cup DOMAIN c.sh[m.s].appl
\* Decisions never change.
Stable == [][\A d \in D : c.log[d].ph \in {"commit", "discard", "done"} => c'.log[d].flags = c.log[d].flags]_vars
\* Ghosts never change what a shard answered or holds.
GhostsHarmless == [][(c'.gh # c.gh /\ c'.log = c.log /\ crashes' = crashes) =>
  \A s \in 1..NS : \A x \in c.sh[s].uhs : x \in c'.sh[s].uhs \cup c'.sh[s].locked]_vars
=============================================================================
