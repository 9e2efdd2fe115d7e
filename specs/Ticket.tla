------------------------------- MODULE Ticket -------------------------------
(* Ticket numbers.  The ticket machine is a replicated log: the k-th entry
   hands out the k-th range of B numbers.  A broker's client keeps the numbers
   it was given and hands them to requesters one by one, and asks for a range
   when it runs low.

   A client is a record: have (numbers kept), wait (requests waiting, oldest
   first), busy (a range has been asked for).  The operations are as atomic as
   the client's mutex makes them.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == { s[i] : i \in DOMAIN s }
Client0 == [have |-> << >>, wait |-> << >>, busy |-> FALSE]
Numbers(lo, hi) == [i \in 1..(hi - lo) |-> lo + i - 1]
Range(B, k) == [lo |-> (k - 1) * B, hi |-> k * B]
Front(s, n) == SubSeq(s, 1, n)
Rest(s, n) == SubSeq(s, n + 1, Len(s))
Min(a, b) == IF a < b THEN a ELSE b

(* Request i; can: a message can be sent now; Low: ask when fewer are kept.
   Result: the client, whether a range was asked for (or tried), what the
   requester learns: a number, 0 = waits, -1 = refused.  Numbers count from 1
   here, the code's from 0.                                                  *)
Get(c, i, can, Low) ==
  LET ask == Len(c.have) < Low /\ ~c.busy
      b == c.busy \/ (ask /\ can)
  IN IF c.have = << >>
     THEN IF ask /\ ~can THEN [c |-> c, ask |-> ask, r |-> -1]
          ELSE [c |-> [c EXCEPT !.wait = Append(@, i), !.busy = b], ask |-> ask, r |-> 0]
     ELSE [c |-> [c EXCEPT !.have = Rest(@, 1), !.busy = b], ask |-> ask, r |-> Head(c.have)]

(* A range arrives: given = the requests served, with their numbers; failed =
   the requests told of an error.                                            *)
Got(c, ns, can) ==
  LET h == c.have \o ns
      n == Min(Len(h), Len(c.wait))
      w == Rest(c.wait, n)
      ask == w # << >>
  IN [c |-> [have |-> Rest(h, n), wait |-> IF ask /\ ~can THEN << >> ELSE w, busy |-> ask /\ can],
      ask |-> ask, given |-> [k \in 1..n |-> <<c.wait[k], h[k]>>],
      failed |-> IF ask /\ ~can THEN Rng(w) ELSE {}]
\* The machine answers that it failed.
Failed(c) == [c |-> [c EXCEPT !.wait = << >>, !.busy = FALSE], failed |-> Rng(c.wait)]
=============================================================================
