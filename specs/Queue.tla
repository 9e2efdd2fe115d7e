------------------------------- MODULE Queue -------------------------------
(* A blocking queue as threads see it: critical sections under its mutex, a
   condition variable with waiting threads, and the flag that is raised by
   clear and lowered by reset.  A queue is a record: buf (the items), up (the
   flag), wait (threads in the condition variable's queue).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Queue0 == [buf |-> << >>, up |-> FALSE, wait |-> {}]
\* The critical sections.
Put(q, v) == [q EXCEPT !.buf = Append(@, v)]
Clear(q) == [q EXCEPT !.buf = << >>, !.up = TRUE]
Reset(q) == [q EXCEPT !.up = FALSE]
CanTake(q) == q.buf # << >> \/ q.up
\* A taker that need not wait: 0 is "interrupted".
Taken(q) == IF q.buf = << >> THEN 0 ELSE Head(q.buf)
Take(q) == IF q.buf = << >> THEN q ELSE [q EXCEPT !.buf = Tail(@)]
=============================================================================
