----------------------------- MODULE TraceWire -----------------------------
EXTENDS Wire, TraceLib
VARIABLES l, bad
vars == <<l, bad>>

Dec(e) ==
  LET d == Decode(e.t, e.b, 1)
      a == Decode(e.t, e.re, 1)
  IN CASE d.r = "odd" -> ""
       [] d.r = "bad" -> IF e.ok THEN "accepted-malformed" ELSE IF ~e.via THEN "serializers-differ" ELSE ""
       [] OTHER ->
            IF ~e.ok THEN "refused"
            ELSE IF e.f # d.f THEN "contents"
            ELSE IF ~e.via THEN "serializers-differ"
            ELSE IF a.r # "ok" THEN "encoding"
            ELSE IF a.p # Len(e.re) + 1 \/ a.f # d.f THEN "encoding"
            ELSE IF e.sz # Len(e.re) THEN "size"
            ELSE IF ~e.alt THEN "encodings-differ" ELSE ""

Item == [buf |-> 1, hashes |-> 32, u64s |-> 8, bools |-> 1, hashset |-> 32, u64set |-> 8, u64map |-> 40, werrs |-> 73]
Big(e) ==
  CASE e.sz # 8 + e.n * Item[e.k] \/ e.asz # e.sz -> "size"
    [] ~e.alt -> "encodings-differ"
    [] e.ok # (e.cut = 0) -> IF e.ok THEN "accepted-malformed" ELSE "refused"
    [] e.ok /\ ~e.same -> "contents"
    [] OTHER -> ""

Step(e) ==
  CASE e.ev = "dec" -> Dec(e)
    [] e.ev = "big" -> Big(e)
    [] OTHER        -> e.ev

Init == l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN bad' = ""
     ELSE IF bad # "" THEN UNCHANGED bad
     ELSE bad' = Step(e) /\ (bad' # "" => Report(l, bad', 0))
Spec == Init /\ [][Next]_vars
=============================================================================
