------------------------------- MODULE MCWire -------------------------------
(* All types with small contents: what is encoded is what is decoded.        *)
EXTENDS Wire
CONSTANTS Skip, Dp
VARIABLES t, e, h
vars == <<t, e, h>>
S(n) == ToString(n)
Names == DOMAIN Defs \ Skip
Rep(x, n) == [i \in 1..n |-> x]
N8(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
RECURSIVE Min(_)
\* The smallest encoding of a type.
Min(n) ==
  LET D == Defs[n] IN
  CASE D.k = "int" -> Rep(0, D.n)
    [] D.k \in {"bool", "opt"} -> <<0>>
    [] D.k = "struct" -> LET F == [i \in DOMAIN D.a |-> Min(D.a[i])] IN Flat(F)
    [] D.k = "var" -> <<0>> \o Min(D.a[1])
    [] OTHER -> N8(0)
RECURSIVE Encs(_, _)
\* Encodings of a type, structures differ from the smallest one in one field.
Encs(n, d) ==
  LET D == Defs[n] IN
  IF d = 0 THEN {Min(n)} ELSE
  CASE D.k = "int" -> {Rep(0, D.n), [i \in 1..D.n |-> i], Rep(255, D.n)}
    [] D.k = "bool" -> {<<0>>, <<1>>}
    [] D.k = "buf" -> {N8(0), N8(1) \o <<8>>, N8(2) \o <<0, 255>>}
    [] D.k = "struct" ->
         {Min(n)} \cup
         UNION { { Flat([k \in DOMAIN D.a |-> IF k = i THEN x ELSE Min(D.a[k])]) : x \in Encs(D.a[i], d - 1) } : i \in DOMAIN D.a }
    [] D.k = "var" -> UNION { { <<i - 1>> \o x : x \in Encs(D.a[i], d - 1) } : i \in DOMAIN D.a }
    [] D.k = "opt" -> {<<0>>} \cup { <<1>> \o x : x \in Encs(D.t, d - 1) }
    [] D.k = "list" ->
         LET X == Encs(D.t, d - 1) IN
         {N8(0)} \cup { N8(1) \o x : x \in X } \cup { N8(2) \o Min(D.t) \o x : x \in X }
    [] D.k = "set" ->
         LET X == Encs(D.t, d - 1) IN
         {N8(0)} \cup { N8(1) \o x : x \in X } \cup { N8(2) \o x \o y : x, y \in X }
    [] D.k = "map" ->
         LET X == Encs(D.t, d - 1)
             Y == Encs(D.v, d - 1)
         IN {N8(0)} \cup { N8(1) \o Min(D.t) \o y : y \in Y }
            \cup { N8(2) \o Min(D.t) \o y \o x \o Min(D.v) : x \in X, y \in Y }

RECURSIVE Csv(_)
Csv(q) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN S(q[1]) ELSE S(q[1]) \o "," \o Csv(Tail(q))
Depth(n) == Dp
Init == t \in Names /\ e = << >> /\ h = ""
Pick == e = << >> /\ e' \in Encs(t, Depth(t)) /\ UNCHANGED t /\ h' = "dec " \o t \o " " \o Csv(e') \o ";"
Next == Pick
Spec == Init /\ [][Next]_vars
View == <<t, e>>
Emit == PrintT("H " \o h')

\* Every encoding is read to its end, no shorter one is accepted.
Whole == e # << >> => LET d == Decode(t, e, 1) IN d.r = "odd" \/ (d.r = "ok" /\ d.p = Len(e) + 1)
NoShorter ==
  e # << >> => \A n \in 0..(Len(e) - 1) : Decode(t, SubSeq(e, 1, n), 1).r # "ok"
\* What follows does not change it.
Prefix == e # << >> => LET d == Decode(t, e, 1) IN Decode(t, e \o <<1, 7>>, 1) = d
\* Different encodings have different contents, but for the order in sets.
RECURSIVE Has(_)
Has(n) ==
  LET D == Defs[n] IN
  CASE D.k \in {"set", "map"} -> TRUE
    [] D.k \in {"struct", "var"} -> \E i \in DOMAIN D.a : Has(D.a[i])
    [] D.k \in {"opt", "list"} -> Has(D.t)
    [] OTHER -> FALSE
Distinct ==
  (e # << >> /\ Decode(t, e, 1).r = "ok") =>
    \A x \in Encs(t, 3) : (x # e /\ Decode(t, x, 1).r = "ok" /\ (Has(t) => Len(x) # Len(e)))
                            => Decode(t, x, 1).f # Decode(t, e, 1).f
=============================================================================
