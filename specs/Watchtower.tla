----------------------------- MODULE Watchtower -----------------------------
(* What a watchtower remembers and answers.
     w.k, w.j    numbers of blocks and errors it keeps, 0: all
     w.blks      kept blocks [h, txs], txs a sequence of [id, ins, outs]
     w.errs      kept errors [t, k, es], oldest first
     w.best      height of the newest block
   Outputs are created once and spent once.                                  *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(q) == { q[i] : i \in DOMAIN q }
LOCAL Last(q, n) == IF n = 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))

WInit(k, j) == [k |-> k, j |-> j, blks |-> << >>, errs |-> << >>, best |-> 0]

WBlock(w, b) ==
  [w EXCEPT !.blks = Last(Append(@, b), w.k),
            !.best = IF b.h > @ THEN b.h ELSE @]

\* Heights at which t spent x, created x, and at which anything spent x.
SpentAt(w, t, x) ==
  { b.h : b \in { c \in Rng(w.blks) : \E i \in DOMAIN c.txs : c.txs[i].id = t /\ x \in Rng(c.txs[i].ins) } }
MadeAt(w, t, x) ==
  { b.h : b \in { c \in Rng(w.blks) : \E i \in DOMAIN c.txs : c.txs[i].id = t /\ x \in Rng(c.txs[i].outs) } }
Spent(w, x) == \E b \in Rng(w.blks) : \E i \in DOMAIN b.txs : x \in Rng(b.txs[i].ins)

\* Errors about outputs of a transaction that is in a kept block come from
\* repeating it, they are ignored.
Repeated(w, e) ==
  /\ e.k \in {"spent", "dne"}
  /\ \E x \in Rng(e.es) :
       \/ SpentAt(w, e.t, x) # {}
       \/ ~Spent(w, x) /\ MadeAt(w, e.t, x) # {}
WErrs(w, es) == [w EXCEPT !.errs = Last(@ \o SelectSeq(es, LAMBDA e : ~Repeated(w, e)), w.j)]

Pick(H) == CHOOSE x \in H : TRUE
ErrsOf(w, t) == { i \in DOMAIN w.errs : w.errs[i].t = t }
Newest(w, t) == w.errs[CHOOSE i \in ErrsOf(w, t) : \A n \in ErrsOf(w, t) : n <= i]

\* The answer for output x of (or spent by) transaction t.
Status(w, t, x) ==
  IF SpentAt(w, t, x) # {} THEN [x |-> x, s |-> "spent", h |-> Pick(SpentAt(w, t, x))]
  ELSE IF ~Spent(w, x) /\ MadeAt(w, t, x) # {}
       THEN [x |-> x, s |-> "unspent", h |-> Pick(MadeAt(w, t, x))]
  ELSE IF ErrsOf(w, t) # {} THEN
       [x |-> x, h |-> w.best,
        s |-> IF Newest(w, t).k \in {"sync", "range"} THEN "internal"
              ELSE IF \E e \in Rng(w.errs) : e.k \in {"spent", "dne"} /\ x \in Rng(e.es) THEN "invalid"
              ELSE "rejected"]
  ELSE [x |-> x, s |-> "none", h |-> w.best]
Answer(w, t, xs) == [i \in DOMAIN xs |-> Status(w, t, xs[i])]

----------------------------------------------------------------------------
(* Block intake: block h of the chain arrives, `last` is the last one given
   to the watchtower.  Missing blocks are fetched first, old ones ignored.   *)
IntakeNeeds(last, h) == IF h > last + 1 THEN (last + 1)..(h - 1) ELSE {}
RECURSIVE WBlocks(_, _)
WBlocks(w, bs) == IF bs = << >> THEN w ELSE WBlocks(WBlock(w, Head(bs)), Tail(bs))
Intake(w, last, chain, h) == IF h <= last THEN w ELSE WBlocks(w, SubSeq(chain, last + 1, h))
=============================================================================
