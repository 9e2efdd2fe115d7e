------------------------------ MODULE MCAttest ------------------------------
(* Attestations: given, carried over to other transactions, spoilt.          *)
EXTENDS Valid, TLC
CONSTANTS Keys, Known, Max
K2 == {1, 2, -1}
Kn2 == {1, -1}
K3 == {1, 2, 3, -1}
Kn3 == {1, 2, -1}
VARIABLES cont, att, h
vars == <<cont, att, h>>
S(n) == ToString(n)
\* Two transactions whose contents can change.
Cs == {1, 2}
Fn(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Init == cont = [c \in Cs |-> <<c, 0>>] /\ att = [c \in Cs |-> << >>] /\ h = ""
Log(x) == h' = h \o x \o ";"
Sign(c, k) == /\ k > 0
              /\ att' = [att EXCEPT ![c] = Fn(@, k, [by |-> k, over |-> cont[c]])]
              /\ UNCHANGED cont /\ Log("sign " \o S(c) \o " " \o S(k))
Mis(c, k, g) == /\ k # g /\ g > 0
                /\ att' = [att EXCEPT ![c] = Fn(@, k, [by |-> g, over |-> cont[c]])]
                /\ UNCHANGED cont /\ Log("mis " \o S(c) \o " " \o S(k) \o " " \o S(g))
Put(c, k) == LET d == 3 - c IN
             /\ k \in DOMAIN att[d]
             /\ att' = [att EXCEPT ![c] = Fn(@, k, att[d][k])]
             /\ UNCHANGED cont /\ Log("put " \o S(c) \o " " \o S(k) \o " " \o S(d))
Drop(c, k) == /\ k \in DOMAIN att[c]
              /\ att' = [att EXCEPT ![c] = [j \in DOMAIN @ \ {k} |-> @[j]]]
              /\ UNCHANGED cont /\ Log("drop " \o S(c) \o " " \o S(k))
Mut(c) == /\ cont[c][2] < Max
          /\ cont' = [cont EXCEPT ![c] = <<@[1], @[2] + 1>>]
          /\ UNCHANGED att /\ Log("mut " \o S(c) \o " " \o S(cont[c][2]))
Chk(c, n) == UNCHANGED <<cont, att>> /\ Log("chk " \o S(c) \o " " \o S(n))
Next == \/ \E c \in Cs, k \in Keys : Sign(c, k)
        \/ \E k \in Keys : Put(1, k) \/ Drop(1, k)
        \/ \E k, g \in Keys : Mis(1, k, g)
        \/ Mut(1)
        \/ \E n \in 0..2 : Chk(1, n)
Spec == Init /\ [][Next]_vars
View == <<cont, att>>
Emit == PrintT("H " \o h')
\* Enough known authorities signed what the transaction is now.
Sound == \A c \in Cs, n \in 0..3 :
  Attested(cont[c], att[c], Known, n) =>
    Cardinality({ k \in Known : k \in DOMAIN att[c] /\ att[c][k] = [by |-> k, over |-> cont[c]] }) >= n
\* Never by less than one known authority unless none are asked for.
None == \A c \in Cs : att[c] = << >> => \A n \in 1..3 : ~Attested(cont[c], att[c], Known, n)
Mono == \A c \in Cs, n \in 0..2 : Attested(cont[c], att[c], Known, n + 1) => Attested(cont[c], att[c], Known, n)
=============================================================================
