----------------------------- MODULE TraceValid -----------------------------
EXTENDS Valid, TraceLib
VARIABLES l, bad, ids
vars == <<l, bad, ids>>

Real(e) == [n \in DOMAIN e.wits |->
  LET w == e.wits[n]
  IN [len |-> w.len, ty |-> w.ty, key |-> w.key, by |-> w.by,
      over |-> IF w.over = 0 THEN << >> ELSE <<e.bodies[w.over][1], e.bodies[w.over][2]>>]]
Check(e) == LET v == Verdict(e.ins, e.outs, Real(e)) IN
  IF <<e.v[1], e.v[2]>> = v THEN ""
  ELSE IF e.v[1] = "" THEN "accepted-invalid"
  ELSE IF v[1] = "" THEN "refused-valid" ELSE "named-rule"

\* Identifiers: ids are pairs of what something is and its identifier.
Known(c, n) == { x \in ids : x[1] = c \/ x[2] = n }
Fits(c, n) == Known(c, n) \subseteq {<<c, n>>}
IdOf(e) == <<"tx", e.ins, e.outs>>
InOf(x) == <<"out", x.t, x.i, x.c, x.v>>
OutOf(e, j) == <<"out", e.id, <<(j - 1) % 65536, (j - 1) \div 65536, 0, 0>>, e.outs[j].c, e.outs[j].v>>
New(e) == {<<IdOf(e), e.id>>} \cup { <<InOf(e.ins[j]), e.ci[j]>> : j \in DOMAIN e.ins }
                              \cup { <<OutOf(e, j), e.co[j]>> : j \in DOMAIN e.outs }
OneToOne(U) == Cardinality({ x[1] : x \in U }) = Cardinality(U) /\ Cardinality({ x[2] : x \in U }) = Cardinality(U)
Id(e) ==
  CASE e.cid # e.id \/ Len(e.ci) # Len(e.ins) \/ Len(e.co) # Len(e.outs) -> "compact"
    [] e.fr # e.co -> "output-as-input"
    [] ~e.none -> "output-as-input"
    [] \E x, y \in ids \cup New(e) : x # y /\ (x[1] = y[1] \/ x[2] = y[2]) -> "identifiers"
    [] OTHER -> ""

Fn(e) == [k \in { a.k : a \in { e.atts[i] : i \in DOMAIN e.atts } } |->
            LET a == CHOOSE x \in { e.atts[i] : i \in DOMAIN e.atts } : x.k = k IN [by |-> a.by, over |-> a.over]]
Chk(e) ==
  LET known == { e.known[i] : i \in DOMAIN e.known }
      a == Attested(e.cont, Fn(e), known, e.thr)
  IN CASE ~Fits(<<"compact", e.cont>>, e.h) -> "identifiers"
       [] \E i \in DOMAIN e.atts : e.atts[i].ok # (e.atts[i].k > 0 /\ e.atts[i].by = e.atts[i].k /\ e.atts[i].over = e.cont) -> "attestation"
       [] e.ok /\ ~a -> "attested-too-easily"
       [] ~e.ok /\ a -> "not-attested"
       [] OTHER -> ""

Step(e) ==
  CASE e.ev = "check" -> Check(e)
    [] e.ev = "id" -> Id(e)
    [] e.ev = "chk" -> Chk(e)
    [] e.ev = "uhs" -> IF Fits(InOf(e), e.id) THEN "" ELSE "identifiers"
    [] e.ev = "com" -> IF e.ok THEN "" ELSE "commitment"
    [] e.ev = "sign" -> IF e.key THEN "" ELSE "attestation"
    [] OTHER -> e.ev

Init == l = 1 /\ bad = "" /\ ids = {}
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN bad' = "" /\ ids' = {}
     ELSE IF bad # "" THEN UNCHANGED <<bad, ids>>
     ELSE /\ bad' = Step(e) /\ (bad' # "" => Report(l, bad', 0))
          /\ ids' = IF bad' # "" THEN ids
                    ELSE IF e.ev = "id" THEN ids \cup New(e)
                    ELSE IF e.ev = "uhs" THEN ids \cup {<<InOf(e), e.id>>}
                    ELSE IF e.ev = "chk" THEN ids \cup {<<<<"compact", e.cont>>, e.h>>} ELSE ids
Spec == Init /\ [][Next]_vars
=============================================================================
