------------------------------ MODULE MCValid ------------------------------
(* Every small transaction, built piece by piece and then judged.            *)
EXTENDS Valid, TLC
CONSTANTS MaxIn, MaxOut, Txs, Coms, Wits
Coms2 == {1, 2, -1, 100}
VARIABLES ins, outs, wits, st, h
vars == <<ins, outs, wits, st, h>>
S(n) == ToString(n)

Words == [1..Limbs -> 0..(Base - 1)]
\* A word as a number, and a digit sequence as text (most significant first).
RECURSIVE Num(_, _)
Num(w, n) == IF n = 0 THEN 0 ELSE Num(w, n - 1) + w[n] * (Base ^ (n - 1))
N(w) == Num(w, Limbs)
Total(q) == LET F[n \in 0..Len(q)] == IF n = 0 THEN 0 ELSE F[n - 1] + N(q[n].v) IN F[Len(q)]

\* What the signature of a witness can be over.
Other == <<"other">>
WitOf(k) ==
  CASE k = "none" -> [len |-> 0, ty |-> 0, key |-> 0, by |-> 0, o |-> FALSE]
    [] k = "type" -> [len |-> WLen, ty |-> 1, key |-> 1, by |-> 1, o |-> TRUE]
    [] k = "long" -> [len |-> WLen + 1, ty |-> 0, key |-> 1, by |-> 1, o |-> TRUE]
    [] k = "cut"  -> [len |-> WLen - 1, ty |-> 0, key |-> 1, by |-> 1, o |-> TRUE]
    [] k = "bad"  -> [len |-> WLen, ty |-> 0, key |-> -1, by |-> 1, o |-> TRUE]
    [] k = "ok1"  -> [len |-> WLen, ty |-> 0, key |-> 1, by |-> 1, o |-> TRUE]
    [] k = "ok2"  -> [len |-> WLen, ty |-> 0, key |-> 2, by |-> 2, o |-> TRUE]
    [] k = "by2"  -> [len |-> WLen, ty |-> 0, key |-> 1, by |-> 2, o |-> TRUE]
    [] k = "else" -> [len |-> WLen, ty |-> 0, key |-> 1, by |-> 1, o |-> FALSE]
Real(q) == [n \in DOMAIN q |->
  LET w == WitOf(q[n])
  IN [len |-> w.len, ty |-> w.ty, key |-> w.key, by |-> w.by, over |-> IF w.o THEN Body(ins, outs) ELSE Other]]

Init == ins = << >> /\ outs = << >> /\ wits = << >> /\ st = "in" /\ h = ""
AddIn(t, i, c, v) ==
  /\ st = "in" /\ Len(ins) < MaxIn
  /\ ins' = Append(ins, [t |-> t, i |-> i, c |-> c, v |-> v])
  /\ h' = h \o "i " \o S(t) \o " " \o S(i) \o " " \o S(c) \o " " \o S(N(v)) \o ";"
  /\ UNCHANGED <<outs, wits, st>>
AddOut(c, v) ==
  /\ st \in {"in", "out"} /\ Len(outs) < MaxOut
  /\ outs' = Append(outs, [c |-> c, v |-> v]) /\ st' = "out"
  /\ h' = h \o "o " \o S(c) \o " " \o S(N(v)) \o ";"
  /\ UNCHANGED <<ins, wits>>
AddWit(k) ==
  /\ st \in {"in", "out", "wit"} /\ Len(wits) < MaxIn
  /\ wits' = Append(wits, k) /\ st' = "wit"
  /\ h' = h \o "w " \o k \o ";"
  /\ UNCHANGED <<ins, outs>>
Judge == st # "end" /\ st' = "end" /\ h' = h \o "check;" /\ UNCHANGED <<ins, outs, wits>>
Next == \/ \E t \in Txs, i \in 0..1, c \in Coms, v \in Words : AddIn(t, i, c, v)
        \/ \E v \in Words : AddOut(1, v)
        \/ \E k \in Wits : AddWit(k)
        \/ Judge
Spec == Init /\ [][Next]_vars
View == <<ins, outs, wits, st>>
Emit == st' = "end" => PrintT("H " \o h')

V == Verdict(ins, outs, Real(wits))
End == st = "end"
\* Judged valid is what it means: nothing is created, nothing is lost, and the
\* owner of everything that is spent signed just this.
Sound ==
  (End /\ V[1] = "") =>
    /\ Total(ins) = Total(outs) /\ Total(outs) < Base ^ Limbs
    /\ ins # << >> /\ outs # << >>
    /\ \A i, j \in DOMAIN ins : i # j => Op(ins[i]) # Op(ins[j])
    /\ \A i \in DOMAIN ins : N(ins[i].v) > 0
    /\ \A i \in DOMAIN outs : N(outs[i].v) > 0
    /\ Len(wits) = Len(ins)
    /\ \A i \in DOMAIN ins :
         LET w == Real(wits)[i]
         IN w.by = ins[i].c /\ w.by > 0 /\ w.over = Body(ins, outs) /\ w.ty = 0 /\ w.len = WLen
\* And nothing of the kind is turned down.
Complete ==
  (End /\ V[1] # "") =>
    \/ ins = << >> \/ outs = << >> \/ Len(ins) # Len(wits)
    \/ Cardinality({ Op(ins[i]) : i \in DOMAIN ins }) < Len(ins)
    \/ \E i \in DOMAIN ins : N(ins[i].v) = 0
    \/ \E i \in DOMAIN outs : N(outs[i].v) = 0
    \/ Total(ins) >= Base ^ Limbs \/ Total(outs) >= Base ^ Limbs
    \/ Total(ins) # Total(outs)
    \/ \E i \in DOMAIN ins :
         LET w == Real(wits)[i]
         IN ~(w.len = WLen /\ w.ty = 0 /\ w.key = ins[i].c /\ w.key > 0 /\ w.by = w.key /\ w.over = Body(ins, outs))
Overflow == End => /\ Overflows(ins) = (Total(ins) >= Base ^ Limbs)
                   /\ Overflows(outs) = (Total(outs) >= Base ^ Limbs)
                   /\ N(Sum(ins)) = Total(ins) % (Base ^ Limbs)
=============================================================================
