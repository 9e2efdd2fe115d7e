---------------------------- MODULE TraceAShard ----------------------------
EXTENDS AtomShard, Archiver, TraceLib, TLC
\* now: calls on the shard in progress, id -> lowest height they may see
VARIABLES mode, s, a, chain, now, l, bad
vars == <<mode, s, a, chain, now, l, bad>>
Rng(q) == { q[i] : i \in DOMAIN q }
Same == [s |-> s, a |-> a, chain |-> chain, now |-> now]
Out(x, v) == [s |-> x, v |-> v]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]

Norm(r) == [k |-> r.k, h |-> r.h, at |-> Rng(r.at)]
NoDup(r) == Cardinality(Rng(r.at)) = Len(r.at) \/ r.k # "ok"
Judge(r, ins, N) ==
  LET W == { SAnswer(s, ins, n) : n \in N } IN
  CASE Norm(r) \in W /\ NoDup(r) -> ""
    [] r.k = "ok" /\ ~\E w \in W : w.k = "ok" -> "attested"
    [] r.k # "ok" /\ ~\E w \in W : w.k # "ok" -> "refused"
    [] OTHER -> "answer"

\* A block whose digestion has begun may be seen.
Start(e) ==
  Out([Same EXCEPT !.now = Put(now, e.id, [lo |-> s.h, blk |-> e.blk])], "")
\* The set after a block in progress, if there is one.
Ahead == IF \E i \in DOMAIN now : now[i].blk # 0
         THEN SBlock(s, chain[now[CHOOSE i \in DOMAIN now : now[i].blk # 0].blk]) ELSE s
EndTx(e) ==
  LET t == Ahead
      W == { SAnswer(t, e.ins, n) : n \in (now[e.id].lo)..(t.h) }
      r == e.r
  IN Out([Same EXCEPT !.now = Del(now, {e.id})],
         CASE r.t # e.tx -> "answer"
           [] Norm(r) \in W /\ NoDup(r) -> ""
           [] r.k = "ok" /\ ~\E w \in W : w.k = "ok" -> "attested"
           [] r.k # "ok" /\ ~\E w \in W : w.k # "ok" -> "refused"
           [] OTHER -> "answer")
EndBlk(e) ==
  LET t == SBlock(s, chain[e.h]) IN
  Out([Same EXCEPT !.s = t, !.now = Del(now, {e.id})],
      CASE (e.ok = 1) # SDigests(s, chain[e.h]) -> "digest"
        [] e.best # t.h -> "height"
        [] OTHER -> "")

Need(last, h) == IF h > last + 1 THEN (last + 1)..(h - 1) ELSE {}
CtlPkt(e) ==
  Out([Same EXCEPT !.s = SBlocks(s, IF e.h <= s.h THEN << >> ELSE SubSeq(chain, s.h + 1, e.h))],
      CASE Rng(e.asked) # Need(s.h, e.h) -> "fetch"
        [] e.sent # << >> -> "answer"
        [] OTHER -> "")
Req(e) ==
  LET valid == { i \in DOMAIN e.ts : e.ts[i].valid = 1 }
      ins(t) == (CHOOSE x \in Rng(e.ts) : x.t = t).ins
  IN Out(Same,
      CASE \E r \in Rng(e.sent) : ~\E i \in valid : e.ts[i].t = r.t -> "unattested"
        [] Len(e.sent) # Cardinality(valid) -> "dropped"
        [] \E i \in valid : Cardinality({ j \in DOMAIN e.sent : e.sent[j].t = e.ts[i].t })
                          # Cardinality({ j \in valid : e.ts[j].t = e.ts[i].t }) -> "dropped"
        [] \E r \in Rng(e.sent) : Judge(r, ins(r.t), {s.h}) # "" ->
             Judge(CHOOSE r \in Rng(e.sent) : Judge(r, ins(r.t), {s.h}) # "",
                   ins((CHOOSE r \in Rng(e.sent) : Judge(r, ins(r.t), {s.h}) # "").t), {s.h})
        [] OTHER -> "")

Pick(X) == CHOOSE x \in X : TRUE
ArPkt(e) ==
  LET r == ABlk(a, e.h)
      P == { x.h : x \in { y \in Rng(e.sent) : y.k = "prune" } }
      G == { x.h : x \in { y \in Rng(e.sent) : y.k = "get" } }
  IN Out([Same EXCEPT !.a = r.a],
      CASE e.best # r.a.best -> "stored"
        [] \E p \in P : p > r.a.best -> "prune-unstored"
        [] r.prune # 0 /\ r.prune \notin P -> "prune"
        [] r.get # 0 /\ r.get \notin G -> "request"
        [] OTHER -> "")
ArGet(e) ==
  Out(Same,
      CASE e.h >= 1 /\ e.h <= a.best /\ e.got # e.h -> "lost"
        [] ~(e.h >= 1 /\ e.h <= a.best) /\ e.got # 0 -> "extra"
        [] e.got # 0 /\ e.same # 1 -> "content"
        [] OTHER -> "")
Restart(e) ==
  CASE mode = "ar" -> Out([Same EXCEPT !.a = ARestart(a)], IF e.best # a.best THEN "archive-restart" ELSE "")
    [] mode = "sh" -> Out(Same, IF e.best # s.h THEN "restart" ELSE "")
    [] OTHER -> Out(Same, "")
\* The archiver syncs what it stores, the shard may lose its latest blocks.
Crash(e) ==
  IF mode = "ar"
  THEN LET C == { x \in ACrash(a, e.h) : x.best = e.best }
           P == { x.h : x \in { y \in Rng(e.sent) : y.k = "prune" } } IN
       CASE C = {} -> Out(Same, "archive-crash")
         [] \E p \in P : p > e.best -> Out([Same EXCEPT !.a = Pick(C)], "prune-unstored")
         [] OTHER -> Out([Same EXCEPT !.a = Pick(C)], "")
  ELSE LET t == SBlock(s, chain[e.h]) IN
       IF e.best = t.h \/ e.best = s.h \/ (e.power = 1 /\ e.best <= t.h)
       THEN Out([Same EXCEPT !.s = [t EXCEPT !.h = e.best]], "")
       ELSE Out(Same, "crash-height")

Step(e) ==
  CASE e.ev = "mk"       -> Out([Same EXCEPT !.chain = Append(chain, [h |-> e.h, txs |-> e.txs])], "")
    [] e.ev = "start"    -> Start(e)
    [] e.ev = "endtx"    -> EndTx(e)
    [] e.ev = "endblk"   -> EndBlk(e)
    [] e.ev = "pkt"      -> IF mode = "ar" THEN ArPkt(e) ELSE CtlPkt(e)
    [] e.ev = "req"      -> Req(e)
    [] e.ev = "get"      -> ArGet(e)
    [] e.ev = "restart"  -> Restart(e)
    [] e.ev = "crashblk" -> Crash(e)
    [] e.ev = "junk"     -> Out(Same, IF mode # "ar" /\ e.sent # << >> THEN "answer"
                                      ELSE IF mode = "ar" /\ e.best # a.best THEN "stored" ELSE "")
    [] OTHER             -> Out(Same, e.ev)

Init == mode = "sh" /\ s = SInit(0, 255) /\ a = ArInit /\ chain = << >> /\ now = << >> /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN mode' = e.mode /\ s' = SInit(e.lo, e.hi) /\ a' = ArInit /\ chain' = << >> /\ now' = << >> /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<mode, s, a, chain, now, bad>>
     ELSE LET o == Step(e)
          IN /\ s' = o.s.s /\ a' = o.s.a /\ chain' = o.s.chain /\ now' = o.s.now
             /\ bad' = o.v /\ mode' = mode
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
