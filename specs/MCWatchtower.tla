---------------------------- MODULE MCWatchtower ----------------------------
EXTENDS Watchtower, TLC
CONSTANTS K, J, MaxB, MaxE, Ctl
VARIABLES w, chain, last, errd, h
vars == <<w, chain, last, errd, h>>
\* 1 spends 1 and creates 4; 2 spends 4; 3 conflicts with 1 and 2; 4 creates only
Txs == << [id |-> 1, ins |-> <<1>>, outs |-> <<4>>], [id |-> 2, ins |-> <<4, 2>>, outs |-> <<5>>],
          [id |-> 3, ins |-> <<1, 4>>, outs |-> <<6>>], [id |-> 4, ins |-> << >>, outs |-> <<2>>] >>
T == DOMAIN Txs
S(n) == ToString(n)
In(c) == { t \in T : \E i \in DOMAIN c : \E n \in DOMAIN c[i].txs : c[i].txs[n].id = t }
\* Blocks a correct atomizer may make next.
Fits(c, X) ==
  /\ X \cap In(c) = {}
  /\ \A t \in X : \A x \in Rng(Txs[t].ins) :
       /\ x \in {1} \cup UNION { Rng(Txs[u].outs) : u \in In(c) }
       /\ \A u \in (In(c) \cup X) \ {t} : x \notin Rng(Txs[u].ins)
RECURSIVE Csv(_)
Csv(X) == IF X = {} THEN "" ELSE LET x == CHOOSE x \in X : \A y \in X : x <= y
          IN S(x) \o (IF X = {x} THEN "" ELSE "," \o Csv(X \ {x}))
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE x \in X : \A y \in X : x <= y
            IN <<Txs[x]>> \o SeqOf(X \ {x})
AskAll == "ask 1:1,4 2:4,2,5 3:1,4,6 4:2;best;"

Init == w = WInit(K, J) /\ chain = << >> /\ last = 0 /\ errd = << >> /\ h = ""

Make ==
  /\ Len(chain) < MaxB
  /\ \E X \in SUBSET T :
       /\ Fits(chain, X)
       /\ LET b == [h |-> Len(chain) + 1, txs |-> SeqOf(X)] IN
          /\ chain' = Append(chain, b)
          /\ IF Ctl THEN UNCHANGED <<w, last>> ELSE w' = WBlock(w, b) /\ last' = b.h
          /\ h' = h \o "mk " \o (IF X = {} THEN "-" ELSE Csv(X)) \o ";"
  /\ UNCHANGED errd
Pkt ==
  /\ Ctl
  /\ \E b \in DOMAIN chain :
       /\ w' = Intake(w, last, chain, b)
       /\ last' = IF b > last THEN b ELSE last
       /\ h' = h \o "pkt " \o S(b) \o " " \o S(b - 1) \o " " \o S(b % 2) \o ";"
  /\ UNCHANGED <<chain, errd>>
Errs ==
  /\ Len(errd) < MaxE
  /\ \E e \in { [t |-> t, k |-> k, es |-> Txs[t].ins] : t \in 1..3, k \in {"dne", "spent"} }
            \cup { [t |-> t, k |-> k, es |-> << >>] : t \in 2..3, k \in {"range", "incomplete"} } :
       /\ w' = WErrs(w, <<e>>)
       /\ errd' = Append(errd, e)
       /\ h' = h \o "errs " \o S(e.t) \o ":" \o e.k \o ":" \o Csv(Rng(e.es)) \o ";"
  /\ UNCHANGED <<chain, last>>
Next == Make \/ Pkt \/ Errs
Spec == Init /\ [][Next]_vars
View == <<w, chain, last, errd>>
Emit == PrintT("H " \o h' \o AskAll)

----------------------------------------------------------------------------
Kept(b) == b.h <= last /\ (K = 0 \/ b.h > last - K)
Seen == SelectSeq(chain, LAMBDA b : b.h <= last)
\* What the watchtower has is exactly the newest blocks it was given, in order.
Window == w.blks = SelectSeq(chain, Kept) /\ w.best = last
\* Statuses against the complete history.
Truthful ==
  \A t \in T, x \in 1..6 :
    LET s == Status(w, t, x) IN
    /\ s.s = "spent" => \E b \in Rng(Seen) : b.h = s.h /\ \E u \in Rng(b.txs) : u.id = t /\ x \in Rng(u.ins)
    /\ s.s = "unspent" => /\ \E b \in Rng(Seen) : b.h = s.h /\ \E u \in Rng(b.txs) : u.id = t /\ x \in Rng(u.outs)
                          /\ \A b \in Rng(Seen) : \A u \in Rng(b.txs) : x \notin Rng(u.ins)
    /\ s.s \in {"internal", "rejected", "invalid"} => \E i \in DOMAIN errd : errd[i].t = t
    /\ (\E b \in Rng(Seen) : Kept(b) /\ \E u \in Rng(b.txs) : u.id = t /\ x \in Rng(u.ins)) => s.s = "spent"
\* A transaction in a remembered block is never reported as failed.
NoFalseAlarm ==
  \A b \in Rng(w.blks) : \A u \in Rng(b.txs) : \A x \in Rng(u.ins) \cup Rng(u.outs) :
    Status(w, u.id, x).s \notin {"internal", "rejected", "invalid"}
    \/ (x \in Rng(u.outs) /\ Spent(w, x))
=============================================================================
