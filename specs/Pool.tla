-------------------------------- MODULE Pool --------------------------------
(* The thread pool: a task is given to a thread that is idle, or to a new one.
   A thread is a record: busy, got (tasks handed to it), run (the task it runs,
   0 none).                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Idle(P) == { p \in DOMAIN P : ~P[p].busy }
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Give(P, k) == IF Idle(P) = {} THEN Append(P, [busy |-> TRUE, got |-> <<k>>, run |-> 0])
              ELSE LET p == Least(Idle(P)) IN [P EXCEPT ![p].busy = TRUE, ![p].got = Append(@, k)]
CanStart(P, p) == (P[p].run = 0) /\ (P[p].got # << >>)
Start(P, p) == [P EXCEPT ![p] = [@ EXCEPT !.run = Head(P[p].got), !.got = Tail(@)]]
\* A task ends, then its thread is idle again; a task may be given in between.
End(P, p) == [P EXCEPT ![p].run = 0, ![p].busy = FALSE]
=============================================================================
