----------------------------- MODULE MCAtomizer -----------------------------
(* The atomizer with shards that attest truthfully: an input is attested for
   height h only if it is unspent after block h.                             *)
EXTENDS Atomizer, TLC
CONSTANTS Depth, MaxH, Mode, Case
VARIABLES a, g, alive, acc, h, q
vars == <<a, g, alive, acc, h, q>>
Seed == {1, 2, 3}
Txs ==
  CASE Case = 1 -> << [id |-> 1, ins |-> <<1, 2>>, outs |-> {4}],
                      [id |-> 2, ins |-> <<2, 3>>, outs |-> {5}],
                      [id |-> 3, ins |-> <<1>>, outs |-> {6}] >>
    [] Case = 2 -> << [id |-> 1, ins |-> <<1, 2>>, outs |-> {4}],
                      [id |-> 2, ins |-> <<4, 3>>, outs |-> {5}],
                      [id |-> 3, ins |-> <<4, 1>>, outs |-> {6}] >>
T == DOMAIN Txs
S(n) == ToString(n)
RECURSIVE Csv(_)
Csv(X) == IF X = {} THEN "" ELSE LET x == CHOOSE x \in X : \A y \in X : x <= y
          IN S(x) \o (IF X = {x} THEN "" ELSE "," \o Csv(X \ {x}))

Init == /\ a = AInit(0, Depth) /\ g = GInit /\ alive = [x \in {0} |-> Seed]
        /\ acc = << >> /\ h = "" /\ q = << >>

\* What shards may attest for t at height hh (all inputs at a time or some).
Atts(t, hh) == { X \in SUBSET (0..(Len(Txs[t].ins) - 1)) :
                   X # {} /\ \A i \in X : Txs[t].ins[i + 1] \in alive[hh] }
New(b) == SubSeq(b.comp, Len(a.comp) + 1, Len(b.comp))

Ins ==
  /\ Mode = "raw"
  /\ \E t \in T, hh \in DOMAIN alive : \E X \in Atts(t, hh) :
       LET r == AInsert(a, Txs[t], hh, X) IN
       /\ a' = r.a
       /\ acc' = acc \o New(r.a)
       /\ h' = h \o "ins " \o S(t) \o " " \o S(hh) \o " " \o Csv(X) \o ";"
  /\ UNCHANGED <<g, alive, q>>

Notify ==
  /\ Mode = "agg" /\ Len(g.full) < 2
  /\ \E t \in T, hh \in DOMAIN alive : \E X \in Atts(t, hh) :
       /\ g' = GNotify(g, Txs[t], hh, X)
       /\ h' = h \o "not " \o S(t) \o " " \o S(hh) \o " " \o Csv(X) \o ";"
  /\ UNCHANGED <<a, alive, acc, q>>
Flush ==
  /\ Mode = "agg" /\ g.full # << >>
  /\ LET r == Completes(a, g.full, << >>) IN
     /\ a' = r.a /\ acc' = acc \o New(r.a)
     /\ g' = [g EXCEPT !.full = << >>]
     /\ h' = h \o "flush;"
  /\ UNCHANGED <<alive, q>>

Block ==
  /\ a.h < MaxH
  /\ LET r == ABlock(a)
         B == Rng(r.blk.txs)
         gone == UNION { Rng(Txs[t].ins) : t \in B }
         made == UNION { Txs[t].outs : t \in B }
     IN /\ a' = r.a
        /\ alive' = [x \in DOMAIN alive \cup {r.blk.h} |->
                       IF x = r.blk.h THEN (alive[a.h] \cup made) \ gone ELSE alive[x]]
        /\ q' = Append(q, r.blk)
  /\ h' = h \o "block;"
  /\ UNCHANGED <<g, acc>>

Next == Ins \/ Notify \/ Flush \/ Block
Spec == Init /\ [][Next]_vars
View == <<a, g, alive, acc>>
Emit == PrintT("H " \o h')

\* Whatever is accepted spends existing outputs that nothing else spends.
NoDoubleSpend ==
  \A i, j \in DOMAIN acc : i # j => Rng(Txs[acc[i]].ins) \cap Rng(Txs[acc[j]].ins) = {}
OnlyExisting ==
  \A i \in DOMAIN acc : \A x \in Rng(Txs[acc[i]].ins) :
    x \in Seed \/ \E j \in DOMAIN acc : x \in Txs[acc[j]].outs
\* Accepted transactions are in exactly one block, in order, or wait for it.
RECURSIVE Cat(_)
Cat(b) == IF b = << >> THEN << >> ELSE Head(b).txs \o Cat(Tail(b))
InBlocks == Cat(q) \o a.comp = acc
Contiguous == \A i \in DOMAIN q : q[i].h = i
\* Spent outputs are remembered for the whole window.
Window == \A i \in DOMAIN q : \A t \in Rng(q[i].txs) :
  a.h - q[i].h < a.D => Rng(Txs[t].ins) \subseteq a.spent[a.h - q[i].h + 1]
=============================================================================
