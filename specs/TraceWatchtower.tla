-------------------------- MODULE TraceWatchtower --------------------------
EXTENDS Watchtower, TraceLib, TLC
VARIABLES w, chain, last, l, bad
vars == <<w, chain, last, l, bad>>
Same == [w |-> w, chain |-> chain, last |-> last]
Out(s, v) == [s |-> s, v |-> v]
Blk(e) == [h |-> e.h, txs |-> e.txs]

Ans(e, t) == { i \in DOMAIN e.a : e.a[i].t = t }
AskOne(e, q) ==
  LET A == Ans(e, q.t)
      want == Answer(w, q.t, q.xs)
  IN IF Cardinality(A) # 1 THEN "answers"
     ELSE LET st == e.a[Pick(A)].st IN
          IF Len(st) # Len(want) \/ \E i \in DOMAIN st : st[i].x # want[i].x THEN "answers"
          ELSE IF \E i \in DOMAIN st : st[i].s # want[i].s THEN "status"
          ELSE IF st # want THEN "status-height" ELSE ""
Ask(e) ==
  LET V == { AskOne(e, q) : q \in Rng(e.q) } \ {""} IN
  Out(Same, IF V # {} THEN Pick(V) ELSE IF Len(e.a) # Len(e.q) THEN "answers" ELSE "")

Pkt(e) ==
  LET need == IntakeNeeds(last, e.h) IN
  Out([Same EXCEPT !.w = Intake(w, last, chain, e.h), !.last = IF e.h > last THEN e.h ELSE last],
      CASE e.last # (IF e.h > last THEN e.h ELSE last) -> "intake"
        [] Rng(e.asked) # need -> "intake-fetch"
        [] OTHER -> "")

Step(e) ==
  CASE e.ev = "block" -> Out([Same EXCEPT !.w = WBlock(w, Blk(e)), !.chain = Append(chain, Blk(e)), !.last = e.h], "")
    [] e.ev = "mk"    -> Out([Same EXCEPT !.chain = Append(chain, Blk(e))], "")
    [] e.ev = "pkt"   -> Pkt(e)
    [] e.ev = "junk"  -> Out(Same, IF e.last # last THEN "intake" ELSE "")
    [] e.ev = "errs"  -> Out([Same EXCEPT !.w = WErrs(w, e.es)], "")
    [] e.ev = "ask"   -> Ask(e)
    [] e.ev = "best"  -> Out(Same, IF e.h # w.best THEN "best" ELSE "")
    [] OTHER          -> Out(Same, e.ev)

Init == w = WInit(0, 0) /\ chain = << >> /\ last = 0 /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN w' = WInit(e.k, e.j) /\ chain' = << >> /\ last' = 0 /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<w, chain, last, bad>>
     ELSE LET o == Step(e)
          IN /\ w' = o.s.w /\ chain' = o.s.chain /\ last' = o.s.last
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
