------------------------------ MODULE MCWallet ------------------------------
EXTENDS Wallet, TLC
CONSTANTS MaxTx, Seeds
VARIABLES s, T, file, st, stale, h
vars == <<s, T, file, st, stale, h>>
S(x) == ToString(x)
\* Transaction 1 pays two coins; key 1 is own, key 9 somebody else's.
\* st: what became of the transactions.
Init == /\ T = << [ins |-> {}, nin |-> 0, outs |-> << <<1, 1>>, <<3, 1>>, <<2, 9>> >>] >>
        /\ s = [Init0 EXCEPT !.keys = {1}, !.seeds = 0..(Seeds - 1), !.sv = 2]
        /\ file = [keys |-> {1}, avail |-> {}] /\ st = << "new" >> /\ stale = FALSE /\ h = ""
Log(x) == h' = h \o x \o ";"
Make(t, txt) ==
  /\ Len(T) < MaxTx
  /\ T' = Append(T, t) /\ st' = Append(st, "made") /\ s' = Take(s, t.ins)
  /\ Log(txt) /\ UNCHANGED <<file, stale>>
Ins == (SUBSET All(s)) \ {{}}
SendA == \E v \in {1, 2, 4}, p \in {1, 9}, ins \in Ins :
           LET a == Sum(T, s, ins) IN
           /\ a >= v /\ \A c \in ins : a - Val(T, s, c) < v
           /\ Make([ins |-> ins, nin |-> Cardinality(ins), outs |-> IF a = v THEN << <<v, p>> >> ELSE << <<v, p>>, <<a - v, 1>> >>],
                   "send " \o S(v) \o " " \o S(p) \o " 1")
SpreadA == \E ins \in Ins, m \in 1..2 :
           LET a == Sum(T, s, ins) IN
           /\ m = 1 \/ a >= m
           /\ Make([ins |-> ins, nin |-> Cardinality(ins), outs |-> [i \in 1..m |-> <<IF i < m THEN a \div m ELSE a - (m - 1) * (a \div m), 9>>]],
                   "multi " \o S(Cardinality(ins)) \o " " \o S(m) \o " 9 1")
ConfA == \E t \in DOMAIN T : /\ st[t] \in {"new", "made"} /\ s' = Confirm(T, s, t) /\ st' = [st EXCEPT ![t] = "done"]
                             /\ Log("conf " \o S(t - 1)) /\ UNCHANGED <<T, file, stale>>
RetA == \E t \in DOMAIN T : /\ st[t] = "made" /\ s' = Credit(s, T[t].ins) /\ st' = [st EXCEPT ![t] = "failed"]
                            /\ Log("ret " \o S(t - 1)) /\ UNCHANGED <<T, file, stale>>
SaveA == /\ file # [keys |-> s.keys, avail |-> s.avail]
         /\ file' = [keys |-> s.keys, avail |-> s.avail] /\ Log("save f") /\ UNCHANGED <<s, T, st, stale>>
LoadA == /\ Seeds = 0 /\ s' = [s EXCEPT !.keys = file.keys, !.avail = file.avail]
         /\ stale' = (stale \/ file.avail # s.avail) /\ Log("load f") /\ UNCHANGED <<T, file, st>>
Next == SendA \/ SpreadA \/ ConfA \/ RetA \/ SaveA \/ LoadA
Spec == Init /\ [][Next]_vars
View == <<s, T, file, st, stale>>
Emit == h' # h => PrintT("H " \o h')
Live == { t \in DOMAIN T : st[t] \in {"made", "done"} }
\* No coin is used by two transactions unless the first failed.
NoDouble == stale \/ \A t, u \in Live : t # u => T[t].ins \cap T[u].ins = {}
\* What was received is in the wallet, under way, or paid to somebody.
Of(t, own) == LET V(i) == T[t].outs[i][1] IN MapThenSumSet(V, { i \in DOMAIN T[t].outs : (T[t].outs[i][2] = 1) = own })
Flow == LET got == (IF st[1] = "done" THEN Of(1, TRUE) ELSE 0) + 2 * Seeds
            away == MapThenSumSet(LAMBDA t : IF st[t] = "done" THEN Of(t, FALSE) ELSE 0, DOMAIN T \ {1})
            going == MapThenSumSet(LAMBDA t : IF st[t] = "made" THEN Total(T, t) ELSE 0, DOMAIN T \ {1})
        IN stale \/ Balance(T, s) = got - away - going
=============================================================================
