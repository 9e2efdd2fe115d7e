------------------------------- MODULE Wallet -------------------------------
(* A wallet and the client around it: which outputs (coins) can be spent.

   A coin is <<t, i>>, output i (from 0) of transaction t; <<0, i>> is seed i.
   T: transactions, t |-> [ins, nin, outs], outs being a sequence of amounts
   and keys <<v, k>>.  s:
     keys   own keys             avail  coins that can be spent
     seeds  seeds not yet used   sv, so what a seed is worth and if its key is own
     pend   transactions of the client that are pending
     ps     coins whose spending is pending
     pin    coins the client waits to be confirmed                          *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt
Fn(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Init0 == [keys |-> {}, avail |-> {}, seeds |-> {}, sv |-> 0, so |-> TRUE, pend |-> {}, ps |-> {}, pin |-> {}]
Val(T, s, c) == IF c[1] = 0 THEN s.sv ELSE T[c[1]].outs[c[2] + 1][1]
Sum(T, s, cs) == LET V(c) == Val(T, s, c) IN MapThenSumSet(V, cs)
All(s) == s.avail \cup { <<0, i>> : i \in s.seeds }
Balance(T, s) == Sum(T, s, All(s))
Count(s) == Cardinality(All(s))
Own(T, s, t) == { <<t, i>> : i \in { j \in 0..(Len(T[t].outs) - 1) : T[t].outs[j + 1][2] \in s.keys } }

\* Transaction t is made of coins of the wallet.
Take(s, cs) == [s EXCEPT !.avail = @ \ cs, !.seeds = @ \ { c[2] : c \in { x \in cs \ s.avail : x[1] = 0 } }]
Total(T, t) == LET V(i) == T[t].outs[i][1] IN MapThenSumSet(V, DOMAIN T[t].outs)
Uses(T, s, t) == /\ T[t].ins \subseteq All(s) /\ T[t].nin = Cardinality(T[t].ins)
                 /\ Total(T, t) = Sum(T, s, T[t].ins)
Confirm(T, s, t) == [s EXCEPT !.avail = (@ \cup Own(T, s, t)) \ T[t].ins]
Credit(s, cs) == [s EXCEPT !.avail = @ \cup cs]

\* n payments of v to p and the rest to an own key
Pays(T, s, t, n, v, p) ==
  LET outs == T[t].outs
      rest == Sum(T, s, T[t].ins) - n * v
      is == { i \in DOMAIN outs : outs[i] = <<v, p>> }
  IN IF rest = 0 THEN Len(outs) = n /\ Cardinality(is) = n
     ELSE /\ Len(outs) = n + 1
          /\ \E i \in DOMAIN outs : /\ outs[i][1] = rest /\ outs[i][2] \in s.keys
                                    /\ \A j \in DOMAIN outs \ {i} : outs[j] = <<v, p>>
\* n coins are paid to p in m outputs of the same amount, but for the last
Spreads(T, s, t, n, m, p) ==
  LET outs == T[t].outs
      total == Sum(T, s, T[t].ins)
  IN /\ T[t].nin = n /\ Len(outs) = m
     /\ \A i \in DOMAIN outs : outs[i][2] = p /\ outs[i][1] = IF i < m THEN total \div m ELSE total - (m - 1) * (total \div m)
\* n coins may be too little for m outputs
TooLittle(T, s, n, m) == m > 1 /\ m > n * Min({ Val(T, s, c) : c \in All(s) })

(* The client *)
Register(T, s, t) == [Take(s, T[t].ins) EXCEPT !.ps = @ \cup T[t].ins]
Send(s, t) == [s EXCEPT !.pend = @ \cup {t}]
PinOf(s, t) == { c \in s.pin : c[1] = t }
Known(s, t) == t \in s.pend \/ PinOf(s, t) # {}
Settle(T, s, t) ==
  LET a == IF t \in s.pend THEN [Confirm(T, s, t) EXCEPT !.ps = @ \ T[t].ins, !.pend = @ \ {t}] ELSE s
  IN [a EXCEPT !.avail = @ \cup PinOf(s, t), !.pin = @ \ PinOf(s, t)]
Abandon(T, s, t) ==
  IF t \notin s.pend THEN s
  ELSE LET back == { c \in T[t].ins \cap s.ps : \A u \in s.pend \ {t} : c \notin T[u].ins }
       IN [s EXCEPT !.pend = @ \ {t}, !.ps = @ \ back, !.avail = @ \cup back]
Import(T, s, c) == IF T[c[1]].outs[c[2] + 1][2] \in s.keys THEN [s EXCEPT !.pin = @ \cup {c}] ELSE s
SettleAll(T, s, ts) == FoldSet(LAMBDA t, a : Settle(T, a, t), s, ts)
=============================================================================
