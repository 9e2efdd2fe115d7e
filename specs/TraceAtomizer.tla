--------------------------- MODULE TraceAtomizer ---------------------------
EXTENDS Atomizer, TraceLib, TLC
VARIABLES a, g, sm, snaps, idx, l, bad
vars == <<a, g, sm, snaps, idx, l, bad>>

TPut(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Same == [a |-> a, g |-> g, sm |-> sm, snaps |-> snaps, idx |-> idx]
Out(s, v) == [s |-> s, v |-> v]
Tx(e) == [id |-> e.t, ins |-> e.ins]

SameErr(e, x) == e.t = x.t /\ e.k = x.k /\ Rng(e.es) = x.es
ErrOk(e, x) == IF x.k = "none" THEN e.k = "none" ELSE SameErr(e, x)
SameErrs(q, xs) ==
  /\ Len(q) = Len(xs)
  /\ \A i \in DOMAIN xs : \E j \in DOMAIN q : SameErr(q[j], xs[i])
  /\ \A j \in DOMAIN q : \E i \in DOMAIN xs : SameErr(q[j], xs[i])
\* Transactions as a bag (accepted transactions differ within a block).
SameBag(p, q) == Len(p) = Len(q) /\ Rng(p) = Rng(q)

\* -- the bare atomizer
Did(r, e) ==
  Out([Same EXCEPT !.a = r.a],
      CASE ~ErrOk(e.err, r.e) -> IF r.e.k = "none" THEN "rejected" ELSE
                                 IF e.err.k = "none" THEN "accepted" ELSE "reason"
        [] e.n # Len(r.a.comp) -> "pending"
        [] e.h2 # r.a.h -> "height"
        [] OTHER -> "")
Blk(e) ==
  LET r == ABlock(a) IN
  Out([Same EXCEPT !.a = r.a],
      CASE e.h # r.blk.h -> "block-height"
        [] ~SameBag(e.txs, r.blk.txs) -> "block-content"
        [] Rng(e.inc) # r.errs \/ Len(e.inc) # Cardinality(r.errs) -> "expired"
        [] e.other # 0 -> "reason"
        [] OTHER -> "")

\* -- the replicated atomizer
Notify(e) == Out([Same EXCEPT !.g = GNotify(g, Tx(e), e.h, Rng(e.atts))], "")
Flush(e) ==
  LET full == g.full
      sent == [i \in DOMAIN e.sent |-> <<e.sent[i][1], e.sent[i][2]>>]
      want == [i \in DOMAIN full |-> <<full[i].t.id, full[i].h>>]
      \* complete notifications in the order in which they were sent
      ord  == [i \in DOMAIN sent |-> (CHOOSE j \in DOMAIN full : want[j] = sent[i])]
      okay == SameBag(sent, want)
      r    == Completes(sm.a, [i \in DOMAIN ord |-> full[ord[i]]], << >>)
  IN IF ~okay THEN Out(Same, "aggregate")
     ELSE Out([Same EXCEPT !.g.full = << >>, !.sm.a = r.a, !.idx = IF full = << >> THEN idx ELSE idx + 1],
              IF \E i \in DOMAIN e.rs : ~SameErrs(e.rs[i], r.es) THEN
                (IF r.es = << >> THEN "rejected"
                 ELSE IF \E i \in DOMAIN e.rs : e.rs[i] = << >> THEN "accepted" ELSE "reason")
              ELSE "")
MakeBlock(e) ==
  LET r == SBlock(sm) IN
  Out([Same EXCEPT !.sm = r.s, !.idx = idx + 1],
      CASE \E i \in DOMAIN e.rs : e.rs[i].h # r.blk.h -> "block-height"
        [] \E i \in DOMAIN e.rs : ~SameBag(e.rs[i].txs, r.blk.txs) -> "block-content"
        [] \E i \in DOMAIN e.rs : e.rs[i].txs # e.rs[1].txs -> "replicas-differ"
        [] OTHER -> "")
Get(e) ==
  LET has == e.h \in DOMAIN sm.blocks IN
  Out([Same EXCEPT !.idx = idx + 1],
      CASE \E i \in DOMAIN e.rs : (e.rs[i].ok = 1) # has -> "get"
        [] has /\ \E i \in DOMAIN e.rs : e.rs[i].h # e.h \/ ~SameBag(e.rs[i].txs, sm.blocks[e.h].txs) -> "get"
        [] has /\ \E i \in DOMAIN e.rs : e.rs[i].txs # e.rs[1].txs -> "replicas-differ"
        [] OTHER -> "")
Prune(e) == Out([Same EXCEPT !.sm = SPrune(sm, e.h), !.idx = idx + 1], "")
SnapIdx(r) == IF r \in DOMAIN snaps THEN snaps[r] ELSE 0
Snap(e) == Out([Same EXCEPT !.snaps = TPut(snaps, e.r, idx)], IF e.ok # 1 THEN "snapshot" ELSE "")
Restart(e) ==
  Out(IF e.r = 0 THEN [Same EXCEPT !.g = GInit] ELSE Same,
      IF e.idx # SnapIdx(e.r) \/ e.last # SnapIdx(e.r) THEN "restart" ELSE "")
Install(e) ==
  Out([Same EXCEPT !.snaps = TPut(snaps, e.to, SnapIdx(e.from))],
      IF e.ok # 1 \/ e.idx # SnapIdx(e.from) THEN "install" ELSE "")

Step(e) ==
  CASE e.ev = "ins"     -> Did(AInsert(a, Tx(e), e.h, Rng(e.atts)), e)
    [] e.ev = "insc"    -> Did(AComplete(a, Tx(e), e.h), e)
    [] e.ev = "blk"     -> Blk(e)
    [] e.ev = "ser"     -> Out(Same, IF e.eq # 1 THEN "serialize" ELSE "")
    [] e.ev = "notify"  -> Notify(e)
    [] e.ev = "flush"   -> Flush(e)
    [] e.ev = "block"   -> MakeBlock(e)
    [] e.ev = "get"     -> Get(e)
    [] e.ev = "prune"   -> Prune(e)
    [] e.ev = "snap"    -> Snap(e)
    [] e.ev = "restart" -> Restart(e)
    [] e.ev = "install" -> Install(e)
    [] OTHER            -> Out(Same, e.ev)

Init == a = AInit(0, 1) /\ g = GInit /\ sm = SInit(1) /\ snaps = << >> /\ idx = 0 /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN a' = AInit(e.h, e.D) /\ g' = GInit /\ sm' = SInit(e.D) /\ snaps' = << >> /\ idx' = 0 /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<a, g, sm, snaps, idx, bad>>
     ELSE LET o == Step(e)
          IN /\ a' = o.s.a /\ g' = o.s.g /\ sm' = o.s.sm /\ snaps' = o.s.snaps /\ idx' = o.s.idx
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
