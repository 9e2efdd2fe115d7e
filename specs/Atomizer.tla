------------------------------ MODULE Atomizer ------------------------------
(* The atomizer and its replicated state machine.

     a.h, a.D     height of the last block; depth of the spent-output window
     a.comp       accepted transactions, for the next block (sequence)
     a.pend[o]    notifications given o blocks ago: transaction -> attested
                  input positions (o in 0..D)
     a.spent[o]   outputs spent by transactions accepted o blocks ago

   A transaction is a record [id, ins].  Results of the operators: the new
   state and an error [t, k, es] (k = "none" if there is none).              *)
EXTENDS Naturals, Sequences, FiniteSets

LOCAL Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
LOCAL Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]
Rng(q) == { q[i] : i \in DOMAIN q }
NoErr == [t |-> 0, k |-> "none", es |-> {}]
Err(t, k, es) == [t |-> t, k |-> k, es |-> es]

AInit(h, D) == [h |-> h, D |-> D, comp |-> << >>,
                pend |-> [o \in 0..D |-> << >>], spent |-> [o \in 0..D |-> {}]]

\* A notification without inputs needs no window, it can always be judged.
TooOld(a, t, h) == t.ins # << >> /\ (h > a.h \/ a.h - h > a.D)
Offset(a, h) == IF h > a.h \/ a.h - h > a.D THEN a.D ELSE a.h - h

SpentIn(a, t, o) == { x \in Rng(t.ins) : \E p \in 0..o : x \in a.spent[p] }
Accept(a, t) == [a EXCEPT !.comp = Append(@, t.id), !.spent[0] = @ \cup Rng(t.ins)]

\* Attestations `atts` (input positions) for t at height h.
AInsert(a, t, h, atts) ==
  IF TooOld(a, t, h) THEN [a |-> a, e |-> Err(t.id, "range", {})]
  ELSE
    LET off == Offset(a, h)
        old == IF t.id \in DOMAIN a.pend[off] THEN a.pend[off][t.id] ELSE {}
        a1  == [a EXCEPT !.pend[off] = Put(@, t.id, old \cup atts)]
        os  == { o \in 0..a.D : t.id \in DOMAIN a1.pend[o] }
        tot == UNION { a1.pend[o][t.id] : o \in os }
        oldest == CHOOSE o \in os : \A p \in os : p <= o
    IN IF Cardinality(tot) # Len(t.ins) THEN [a |-> a1, e |-> NoErr]
       ELSE IF SpentIn(a1, t, oldest) # {}
            THEN [a |-> a1, e |-> Err(t.id, "spent", SpentIn(a1, t, oldest))]
       ELSE [a |-> Accept([a1 EXCEPT !.pend = [o \in 0..a.D |-> Del(@[o], {t.id})]], t), e |-> NoErr]

\* All inputs of t were attested, the oldest attestation is for height h.
AComplete(a, t, h) ==
  IF TooOld(a, t, h) THEN [a |-> a, e |-> Err(t.id, "range", {})]
  ELSE LET S == SpentIn(a, t, Offset(a, h)) IN
       IF S # {} THEN [a |-> a, e |-> Err(t.id, "spent", S)]
       ELSE [a |-> Accept(a, t), e |-> NoErr]

\* The next block: its height and transactions, the transactions whose
\* notifications leave the window, and the state after it.
ABlock(a) ==
  [blk  |-> [h |-> a.h + 1, txs |-> a.comp],
   errs |-> DOMAIN a.pend[a.D],
   a    |-> [a EXCEPT !.h = @ + 1, !.comp = << >>,
                      !.pend = [o \in 0..a.D |-> IF o = 0 THEN << >> ELSE a.pend[o - 1]],
                      !.spent = [o \in 0..a.D |-> IF o = 0 THEN {} ELSE a.spent[o - 1]]]]

----------------------------------------------------------------------------
(* Collection of attestations in front of the replicated state machine:
   g.part: transaction -> (input position -> newest attested height),
   g.full: sequence of [t, h] whose inputs are all attested.                *)
GInit == [part |-> << >>, full |-> << >>]
GNotify(g, t, h, atts) ==
  LET old == IF t.id \in DOMAIN g.part THEN g.part[t.id] ELSE << >>
      new == [n \in DOMAIN old \cup atts |->
                IF n \in atts THEN (IF n \in DOMAIN old /\ old[n] > h THEN old[n] ELSE h) ELSE old[n]]
      oldest == IF new = << >> THEN 0
                ELSE CHOOSE x \in { new[n] : n \in DOMAIN new } : \A n \in DOMAIN new : x <= new[n]
  IN IF Cardinality(DOMAIN new) = Len(t.ins)
     THEN [part |-> Del(g.part, {t.id}), full |-> Append(g.full, [t |-> t, h |-> oldest])]
     ELSE [g EXCEPT !.part = Put(@, t.id, new)]

RECURSIVE Completes(_, _, _)
\* Several complete notifications: the state and the errors.
Completes(a, q, es) ==
  IF q = << >> THEN [a |-> a, es |-> es]
  ELSE LET r == AComplete(a, Head(q).t, Head(q).h)
       IN Completes(r.a, Tail(q), IF r.e.k = "none" THEN es ELSE Append(es, r.e))

\* The replicated state: the atomizer and the kept blocks.
SInit(D) == [a |-> AInit(0, D), blocks |-> << >>]
SBlock(s) == LET r == ABlock(s.a) IN
  [s |-> [a |-> r.a, blocks |-> Put(s.blocks, r.blk.h, r.blk)], blk |-> r.blk]
SPrune(s, h) == [s EXCEPT !.blocks = [x \in { y \in DOMAIN @ : y >= h } |-> @[x]]]
=============================================================================
