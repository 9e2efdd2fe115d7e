------------------------------ MODULE MCAShard ------------------------------
(* Mode "sh": requests that overlap with the digestion of blocks.
   Mode "ar": the archiver with repeated, reordered and lost blocks, restarts
   and crashes.                                                              *)
EXTENDS AtomShard, Archiver, TLC
CONSTANTS Mode, MaxB, MaxOps
VARIABLES s, a, run, ans, n, sent, h
vars == <<s, a, run, ans, n, sent, h>>
Rng(q) == { q[i] : i \in DOMAIN q }
\* Outputs 1, 2, 3 are in the range, 200 is not.
Chn == << [h |-> 1, txs |-> <<[id |-> 1, ins |-> << >>, outs |-> <<1, 2, 200>>]>>],
          [h |-> 2, txs |-> <<[id |-> 2, ins |-> <<1>>, outs |-> <<3>>]>>],
          [h |-> 3, txs |-> <<[id |-> 3, ins |-> <<2, 3>>, outs |-> <<1000>>]>>] >>
Reqs == << [id |-> 2, ins |-> <<1>>], [id |-> 4, ins |-> <<2, 200, 3>>] >>
S(x) == ToString(x)

Init == s = SInit(0, 100) /\ a = ArInit /\ run = << >> /\ ans = << >> /\ n = 0 /\ sent = {} /\ h = ""

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]
\* -- shard: a request sees the height at which it takes its snapshot
StartTx ==
  \E r \in DOMAIN Reqs :
    /\ r \notin DOMAIN run
    /\ run' = Put(run, r, [at |-> 99, from |-> s.h])
    /\ h' = h \o "starttx " \o S(r) \o " " \o S(Reqs[r].id) \o ";step " \o S(r) \o ";"
    /\ UNCHANGED <<s, a, ans, sent>>
Snap ==
  \E r \in DOMAIN run :
    /\ run[r].at = 99
    /\ run' = [run EXCEPT ![r].at = s.h]
    /\ h' = h \o "step " \o S(r) \o ";"
    /\ UNCHANGED <<s, a, ans, sent>>
EndTx ==
  \E r \in DOMAIN run :
    /\ run[r].at # 99
    /\ ans' = Append(ans, [ins |-> Reqs[r].ins, r |-> SAnswer(s, Reqs[r].ins, run[r].at), to |-> s.h, from |-> run[r].from])
    /\ run' = Del(run, {r})
    /\ h' = h \o "step " \o S(r) \o ";step " \o S(r) \o ";"
    /\ UNCHANGED <<s, a, sent>>
Digest ==
  /\ s.h < MaxB
  /\ \E b \in 1..MaxB :
       /\ s' = SBlock(s, Chn[b])
       /\ h' = h \o "startblk 9 " \o S(b) \o ";step 9;step 9;step 9;step 9;step 9;step 9;"
  /\ UNCHANGED <<a, run, ans, sent>>
\* -- archiver
Blk ==
  \E b \in 1..MaxB :
    LET r == ABlk(a, b) IN
    /\ a' = r.a
    /\ sent' = sent \cup (IF r.prune # 0 THEN {<<"p", r.prune, r.a.best>>} ELSE {})
                    \cup (IF r.get # 0 THEN {<<"g", r.get, r.a.best>>} ELSE {})
    /\ h' = h \o "pkt " \o S(b) \o " 0 0;"
    /\ UNCHANGED <<s, run, ans>>
Restart ==
  /\ a' = ARestart(a) /\ h' = h \o "restart;"
  /\ UNCHANGED <<s, run, ans, sent>>
Crash ==
  \E b \in 1..MaxB, k \in 0..1 :
    /\ b > a.best
    /\ LET full == ABlk(a, b).a.best
           got == IF a.best + k < full THEN a.best + k ELSE full
       IN a' = [best |-> got, wait |-> {}]
    /\ h' = h \o "crashblk " \o S(b) \o " " \o S(k) \o ";"
    /\ UNCHANGED <<s, run, ans, sent>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ IF Mode = "sh" THEN StartTx \/ Snap \/ EndTx \/ Digest ELSE Blk \/ Restart \/ Crash
Spec == Init /\ [][Next]_vars
View == <<s, a, run, ans, n, sent>>
Emit == PrintT("H " \o h')

\* Attested inputs are unspent after the attested block, and that block is not
\* older than the request.
Truthful ==
  \A i \in DOMAIN ans :
    LET x == ans[i] IN
    /\ x.r.k = "ok" => /\ x.r.h >= x.from /\ x.r.h <= x.to
                       /\ \A p \in x.r.at :
                            /\ \E b \in 1..x.r.h : \E t \in Rng(Chn[b].txs) : x.ins[p + 1] \in Rng(t.outs)
                            /\ \A b \in 1..x.r.h : \A t \in Rng(Chn[b].txs) : x.ins[p + 1] \notin Rng(t.ins)
                       /\ \A p \in DOMAIN x.ins : InRange(s, x.ins[p]) <=> p - 1 \in x.r.at
\* Only stored blocks are pruned, and the first missing one is requested.
PruneStored == \A x \in sent : x[1] = "p" => x[2] <= x[3]
WaitsAhead  == \A x \in a.wait : x > a.best + 1
Asked       == \A x \in sent : x[1] = "g" => x[2] > x[3]
=============================================================================
