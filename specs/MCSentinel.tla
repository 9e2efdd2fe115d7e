----------------------------- MODULE MCSentinel -----------------------------
EXTENDS Sentinel, Sequences, TLC
CONSTANTS Two, N, Thr, Txs, Bad
VARIABLES s, rem, done, fwd, h
vars == <<s, rem, done, fwd, h>>
S(x) == ToString(x)
cfg == [two |-> Two, self |-> 0, n |-> N, thr |-> Thr]
\* Requests 1, 2.. are for transactions 1, 2.. (request 3 for transaction 1 again);
\* request tx + 10 asks for an attestation.
TxOf(r) == IF r > 10 THEN r - 10 ELSE IF r = 3 THEN 1 ELSE r
Init == s = Init0 /\ rem = Txs \cup { t + 10 : t \in Txs } /\ done = << >> /\ fwd = << >> /\ h = ""
Log(x) == h' = h \o x \o ";"
Calm == Quiet(cfg, s)
New(r) == /\ Calm /\ r \in rem
          /\ LET tx == TxOf(r)
                 k == IF r > 10 THEN "val" ELSE "exec"
             IN /\ s' = Request(cfg, s, r, k, tx, IF tx \in Bad THEN "rule" ELSE "")
                /\ Log("req " \o S(r) \o " " \o k \o " " \o S(tx))
          /\ rem' = rem \ {r} /\ UNCHANGED <<done, fwd>>
AskA == \E r \in DOMAIN s.jobs, p \in 0..(N - 1) : CanAsk(cfg, s, r, p) /\ s' = Ask(s, r, p, r) /\ UNCHANGED <<rem, done, fwd, h>>
FwdA == \E r \in DOMAIN s.jobs :
          /\ CanForward(s, r) /\ (Two \/ s.jobs[r].sent = {})
          /\ s' = Forward(cfg, s, r, 1, r)
          /\ fwd' = Fn(fwd, r, s.jobs[r].atts) /\ UNCHANGED <<rem, done, h>>
AnsA == \E x \in s.owed : s' = [s EXCEPT !.owed = @ \ {x}] /\ done' = Fn(done, x[1], IF x[1] \in DOMAIN done THEN "twice" ELSE x[2]) /\ UNCHANGED <<rem, fwd, h>>
PeerA == Calm /\ \E r \in DOMAIN s.jobs, ok \in BOOLEAN :
          /\ s.jobs[r].ph = "ask"
          /\ s' = PeerAns(cfg, s, r, ok) /\ Log("ans " \o S(s.jobs[r].tx) \o " " \o (IF ok THEN "ok " ELSE "none ") \o S(r)) /\ UNCHANGED <<rem, done, fwd>>
CoordA == Calm /\ \E r \in DOMAIN s.jobs, a \in {"yes", "no", "none"} :
          /\ s.jobs[r].ph = "coord"
          /\ s' = CoordAns(cfg, s, r, a) /\ Log("coord " \o S(s.jobs[r].tx) \o " " \o a \o " " \o S(r)) /\ UNCHANGED <<rem, done, fwd>>
StopA == Calm /\ s.jobs # << >> /\ rem # {} /\ s' = Stop(cfg, s) /\ rem' = {} /\ Log("stop") /\ UNCHANGED <<done, fwd>>
Next == (\E r \in rem : New(r)) \/ AskA \/ FwdA \/ AnsA \/ PeerA \/ CoordA \/ StopA
Spec == Init /\ [][Next]_vars
View == <<s, rem, done, fwd>>
Emit == h' # h => PrintT("H " \o h')
\* Handed on only if valid and with enough attestations.
Sound == \A r \in DOMAIN fwd : TxOf(r) \notin Bad /\ Cardinality(fwd[r]) >= Thr /\ fwd[r] \subseteq 0..(N - 1)
Once == \A r \in DOMAIN done : done[r] # "twice"
Told == \A r \in DOMAIN done :
          /\ r \in Txs /\ Two => (done[r] \in {"confirmed", "state_invalid"} => r \in DOMAIN fwd)
          /\ r \in Txs => ((done[r] = "rule") <=> (TxOf(r) \in Bad))
          /\ r > 10 => ((done[r] = "attested") <=> (TxOf(r) \notin Bad))
\* Every request that was made is answered or waits for somebody else.
Answered == Calm => \A r \in (Txs \cup { t + 10 : t \in Txs }) \ rem :
              r \in DOMAIN done \/ r \in DOMAIN s.jobs \/ rem = {}
=============================================================================
