--------------------------- MODULE TraceSentinel ---------------------------
EXTENDS Sentinel, TraceLib, Sequences
VARIABLES l, bad, s, cfg, need
vars == <<l, bad, s, cfg, need>>

Rng(q) == { q[i] : i \in DOMAIN q }
\* Which job a message is about: one at a time does something.
Job(tx, ph) == LET c == In(s, tx, ph) IN IF c = {} THEN 0 ELSE CHOOSE r \in c : TRUE
Waiting(q, ph) == LET c == { r \in DOMAIN s.jobs : s.jobs[r].q = q /\ s.jobs[r].ph = ph } IN IF c = {} THEN 0 ELSE CHOOSE r \in c : TRUE
\* Shards a transaction has to go to: one for every input that has one.
Covered(r) == \A i \in DOMAIN need[s.jobs[r].tx] : LET c == Rng(need[s.jobs[r].tx][i].s) IN c = {} \/ c \cap s.jobs[r].sent # {}
Useful(tx, k) == \E i \in DOMAIN need[tx] : k \in Rng(need[tx][i].s)

Step(e) ==
  CASE e.ev = "req" -> [b |-> "", s |-> Request(cfg, s, e.r, e.k, e.tx, e.err)]
    [] e.ev = "ask" ->
         LET r == Job(e.tx, "more") IN
         IF CanAsk(cfg, s, r, e.p) THEN [b |-> "", s |-> Ask(s, r, e.p, e.q)]
         ELSE [b |-> IF r # 0 THEN "asked-again" ELSE "asked", s |-> s]
    [] e.ev = "ans" -> LET r == Waiting(e.q, "ask") IN [b |-> "", s |-> IF r = 0 THEN s ELSE PeerAns(cfg, s, r, e.ok)]
    [] e.ev = "fwd" ->
         LET r == Job(e.tx, "enough") IN
         IF r = 0 THEN [b |-> "forwarded", s |-> s]
         ELSE IF Rng(e.atts) # s.jobs[r].atts \/ Len(e.atts) # Cardinality(s.jobs[r].atts) THEN [b |-> "attestations", s |-> s]
         ELSE IF ~cfg.two /\ e.to \in s.jobs[r].sent THEN [b |-> "forwarded-twice", s |-> s]
         ELSE IF ~cfg.two /\ ~Useful(e.tx, e.to) THEN [b |-> "forwarded-elsewhere", s |-> s]
         ELSE [b |-> "", s |-> Forward(cfg, s, r, e.to, e.q)]
    [] e.ev = "coord" -> LET r == Waiting(e.q, "coord") IN [b |-> "", s |-> IF r = 0 THEN s ELSE CoordAns(cfg, s, r, e.a)]
    [] e.ev = "answer" ->
         IF <<e.r, e.a>> \in s.owed THEN [b |-> "", s |-> [s EXCEPT !.owed = @ \ {<<e.r, e.a>>}]]
         ELSE IF <<e.r, e.a>> \in s.may THEN [b |-> "", s |-> [s EXCEPT !.may = @ \ {<<e.r, e.a>>}]]
         ELSE [b |-> IF \E x \in s.owed : x[1] = e.r THEN "answer" ELSE "answered-unasked", s |-> s]
    [] e.ev = "stop" -> [b |-> "", s |-> Stop(cfg, s)]
    [] e.ev = "quiet" ->
         IF s.owed # {} THEN [b |-> "not-answered", s |-> s]
         ELSE IF ~Quiet(cfg, s) THEN [b |-> "stuck", s |-> s]
         ELSE IF ~cfg.two /\ \E r \in DOMAIN s.jobs : s.jobs[r].ph = "enough" /\ ~Covered(r) THEN [b |-> "not-forwarded", s |-> s]
         ELSE [b |-> "", s |-> [s EXCEPT !.jobs = [r \in { t \in DOMAIN s.jobs : s.jobs[t].ph # "enough" } |-> s.jobs[r]]]]
    [] e.ev = "junk" -> [b |-> "", s |-> s]
    [] OTHER -> [b |-> e.ev, s |-> s]

Init == l = 1 /\ bad = "" /\ s = Init0 /\ cfg = [two |-> TRUE, self |-> 0, n |-> 1, thr |-> 0] /\ need = << >>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN bad' = "" /\ s' = Init0 /\ need' = << >> /\ cfg' = [two |-> e.two, self |-> e.self, n |-> e.n, thr |-> e.thr]
     ELSE IF bad # "" THEN UNCHANGED <<bad, s, cfg, need>>
     ELSE LET r == Step(e) IN
          /\ bad' = r.b /\ s' = r.s /\ UNCHANGED cfg
          /\ need' = IF e.ev = "req" THEN Fn(need, e.tx, e.need) ELSE need
          /\ (r.b # "" => Report(l, r.b, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
