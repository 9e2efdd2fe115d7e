------------------------------ MODULE Sentinel ------------------------------
(* A sentinel: judges transactions, gathers attestations of other sentinels and
   hands the transactions on, to a coordinator (two = TRUE) or to shards.

   cfg: [two, self, n, thr]; sentinels are 0..n-1.
   jobs: what is being done for requests, r |-> [tx, ph, atts, req, peer, q, sent]
     ph is "more" (an attestation is to be asked for), "ask" (peer has been
     asked), "enough" (to be handed on) or "coord" (handed to a coordinator);
     q is the message in which it was asked or handed on.
   owed: answers to be given, pairs of a request and what it is answered.
   may: answers that may be given or not.                                    *)
EXTENDS Integers, FiniteSets
Fn(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Less(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Ph(cfg, atts) == IF Cardinality(atts) < cfg.thr THEN "more" ELSE "enough"
Init0 == [jobs |-> << >>, owed |-> {}, may |-> {}]

\* err: the rule the transaction breaks ("" if none)
Request(cfg, s, r, kind, tx, err) ==
  IF kind = "val" THEN [s EXCEPT !.owed = @ \cup {<<r, IF err = "" THEN "attested" ELSE "failed">>}]
  ELSE IF err # "" THEN [s EXCEPT !.owed = @ \cup {<<r, err>>}]
  ELSE LET atts == IF cfg.two /\ cfg.thr = 0 THEN {} ELSE {cfg.self}
       IN [s EXCEPT !.owed = IF cfg.two THEN @ ELSE @ \cup {<<r, "pending">>},
           !.jobs = Fn(@, r, [tx |-> tx, ph |-> Ph(cfg, atts), atts |-> atts, req |-> {}, peer |-> -1, q |-> 0, sent |-> {}])]
In(s, tx, ph) == { r \in DOMAIN s.jobs : s.jobs[r].tx = tx /\ s.jobs[r].ph = ph }
CanAsk(cfg, s, r, p) == /\ r \in DOMAIN s.jobs /\ s.jobs[r].ph = "more"
                        /\ p \in 0..(cfg.n - 1) \ ({cfg.self} \cup s.jobs[r].req)
Ask(s, r, p, q) == [s EXCEPT !.jobs[r].ph = "ask", !.jobs[r].peer = p, !.jobs[r].q = q]
Over(cfg, s, r, a) == [s EXCEPT !.jobs = Less(@, r), !.owed = IF cfg.two THEN @ \cup {<<r, a>>} ELSE @]
PeerAns(cfg, s, r, ok) ==
  IF ~ok THEN Over(cfg, s, r, "failed")
  ELSE LET j == s.jobs[r]
           a == j.atts \cup {j.peer}
       IN [s EXCEPT !.jobs[r] = [j EXCEPT !.atts = a, !.req = @ \cup {j.peer}, !.peer = -1, !.ph = Ph(cfg, a)]]
CanForward(s, r) == r \in DOMAIN s.jobs /\ s.jobs[r].ph = "enough"
Forward(cfg, s, r, to, q) == IF cfg.two THEN [s EXCEPT !.jobs[r].ph = "coord", !.jobs[r].q = q] ELSE [s EXCEPT !.jobs[r].sent = @ \cup {to}]
CoordAns(cfg, s, r, a) == Over(cfg, s, r, CASE a = "yes" -> "confirmed" [] a = "no" -> "state_invalid" [] OTHER -> "failed")
\* Nothing more happens without an answer from outside.
Quiet(cfg, s) == /\ s.owed = {}
                 /\ \A r \in DOMAIN s.jobs : s.jobs[r].ph \in (IF cfg.two THEN {"ask", "coord"} ELSE {"ask", "enough"})
\* The sentinel is stopped: whoever waits for what was going on need not hear of it.
Stop(cfg, s) == [s EXCEPT !.jobs = << >>, !.may = @ \cup { <<r, "failed">> : r \in DOMAIN s.jobs }]
=============================================================================
