------------------------------ MODULE Archiver ------------------------------
(* The archiver: stored blocks 1..a.best (a.best survives restarts) and blocks
   that wait for an earlier one.  ABlk: block h arrives; the result has the
   new state, the height pruned at the atomizer up to, and the block that is
   requested from it (0: none).                                              *)
EXTENDS Naturals, FiniteSets

ArInit == [best |-> 0, wait |-> {}]
RECURSIVE Chain(_, _)
Chain(n, W) == IF n + 1 \in W THEN Chain(n + 1, W) ELSE n
RECURSIVE Missing(_, _)
Missing(n, W) == IF n \in W THEN Missing(n - 1, W) ELSE n

ABlk(a, h) ==
  IF h <= a.best THEN [a |-> a, prune |-> 0, get |-> 0]
  ELSE IF h = a.best + 1
  THEN LET n == Chain(h, a.wait)
       IN [a |-> [best |-> n, wait |-> { x \in a.wait : x > n }], prune |-> n, get |-> 0]
  ELSE [a |-> [a EXCEPT !.wait = @ \cup {h}], prune |-> 0, get |-> Missing(h - 1, a.wait)]
ARestart(a) == [a EXCEPT !.wait = {}]
\* The archiver stops while it handles block h.
ACrash(a, h) == { [best |-> n, wait |-> {}] : n \in a.best..ABlk(a, h).a.best }
=============================================================================
