------------------------------ MODULE TraceUtil ------------------------------
(* What threads may observe of a queue, a pool and a bounded set.  Events of one
   thread are in order, and an operation takes effect between its "op" and its
   "ret".

   Queue.  item[v]: st "new" (being put), "in" (put), "out" (taken), "gone";
     pre: items in the queue for sure when v's put began; cl: a clear may have
     removed it; by: {0} any take may return it, or the takes that still may.
   open: thread -> its operation [o, v, alone, ins]; alone: nothing else went on.
   up: interrupted since the last reset.
   Pool.  task[k]: "giving", "given", "run", "end".
   Set.  mem: members, the oldest first; sure, may: keys added / being added.  *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib, TLC
VARIABLES s, l, bad
vars == <<s, l, bad>>
Init0(m, n) == [mode |-> m, item |-> << >>, open |-> << >>, up |-> FALSE,
                task |-> << >>, dest |-> FALSE, mem |-> << >>, max |-> n, sure |-> {}, may |-> {}, won |-> {}]
Out(x, v) == [s |-> x, v |-> v]
Rng(f) == { f[i] : i \in DOMAIN f }
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Pops == { t \in DOMAIN s.open : s.open[t].o = "pop" }
In == { v \in DOMAIN s.item : s.item[v].st = "in" }
Certain == { v \in In : ~s.item[v].cl /\ s.item[v].by = {0} }
Unsure == { v \in DOMAIN s.item : s.item[v].st \in {"new", "in"} } \ Certain

Op(e) ==
  LET others == [t \in DOMAIN s.open |-> [s.open[t] EXCEPT !.alone = FALSE]]
      me == [o |-> e.o, v |-> e.v, alone |-> s.open = << >>, ins |-> In]
      x == [s EXCEPT !.open = (e.t :> me) @@ others]
      clr == \E t \in DOMAIN s.open : s.open[t].o = "clear"
  IN CASE e.o = "push" -> Out([x EXCEPT !.item = (e.v :> [st |-> "new", pre |-> In, cl |-> clr, by |-> {0}]) @@ @], "")
       [] e.o = "clear" -> Out([x EXCEPT !.up = TRUE, !.item = [v \in DOMAIN @ |-> IF @[v].st \in {"new", "in"} THEN [@[v] EXCEPT !.cl = TRUE] ELSE @[v]]], "")
       [] e.o = "reset" -> Out([x EXCEPT !.up = FALSE], "")
       [] OTHER -> Out(x, "")
\* Only takes that are going on can still return the items in W.
Limit(item, W, P) ==
  [w \in DOMAIN item |-> IF w \notin W \/ item[w].st # "in" THEN item[w]
     ELSE LET b == IF item[w].by = {0} THEN P ELSE item[w].by \cap P
          IN [item[w] EXCEPT !.by = b, !.st = IF b = {} THEN "gone" ELSE @]]
Lost(item, W, P) == \E w \in W : /\ item[w].st = "in" /\ ~item[w].cl
                                 /\ (IF item[w].by = {0} THEN P ELSE item[w].by \cap P) = {}
Ret(e) ==
  LET me == s.open[e.t]
      x == [s EXCEPT !.open = Drop(@, e.t)]
      P == Pops \ {e.t}
  IN
  CASE e.o = "push" ->
         Out([x EXCEPT !.item[me.v].st = IF @ = "new" THEN "in" ELSE @],
             IF me.alone /\ Unsure \ {me.v} = {} /\ s.item[me.v].st = "new" /\ e.v # Cardinality(Certain) + 1 THEN "size" ELSE "")
    [] e.o = "clear" -> Out([x EXCEPT !.item = Limit(@, me.ins, Pops)], "")
    [] e.o = "reset" -> Out(x, "")
    [] e.v = 0 ->
         Out(x, CASE ~s.up -> "refused" [] me.alone /\ Certain # {} -> "refused-item" [] OTHER -> "")
    [] e.v \notin DOMAIN s.item -> Out(x, "item-unknown")
    [] OTHER ->
         LET it == s.item[e.v]
             W == IF s.mode = "q" THEN it.pre ELSE {} IN
         Out([x EXCEPT !.item = Limit([@ EXCEPT ![e.v].st = "out"], W, P)],
             CASE it.st = "out" -> "item-again"
               [] it.st = "gone" -> "item-cleared"
               [] it.by # {0} /\ e.t \notin it.by -> "order"
               [] Lost([s.item EXCEPT ![e.v].st = "out"], W, P) -> "order"
               [] s.mode = "p" /\ me.alone /\ \E w \in Certain : w > e.v -> "priority"
               [] OTHER -> "")
\* No thread can go on.
Quiet ==
  CASE \E t \in DOMAIN s.open : s.open[t].o # "pop" -> "held"
    [] Pops # {} /\ s.up -> "not-released"
    [] Pops # {} /\ Certain # {} -> "not-woken"
    [] \E v \in In : ~s.item[v].cl /\ s.item[v].by # {0} /\ s.item[v].by \cap Pops = {} -> "lost"
    [] \E k \in DOMAIN s.task : s.task[k] = "giving" -> "giver-held"
    [] ~s.dest /\ \E k \in DOMAIN s.task : s.task[k] = "given" -> "task-waits"
    [] OTHER -> ""
Give(e) == Out([s EXCEPT !.task = (e.k :> "giving") @@ @], "")
Given(e) == Out([s EXCEPT !.task[e.k] = IF @ = "giving" THEN "given" ELSE @], "")
StartT(e) ==
  IF e.k \notin DOMAIN s.task THEN Out(s, "task-unknown")
  ELSE Out([s EXCEPT !.task[e.k] = "run"],
           CASE s.task[e.k] \in {"run", "end"} -> "task-again"
             [] s.dest /\ 0 \notin DOMAIN s.open -> "task-after-destruction"
             [] OTHER -> "")
StopT(e) == Out([s EXCEPT !.task[e.k] = "end"], "")
Destroyed(e) == Out([s EXCEPT !.open = Drop(@, 0)], IF \E k \in DOMAIN s.task : s.task[k] = "run" THEN "task-left-running" ELSE "")

\* The bounded set.
Add(e) ==
  LET new == e.k \notin Rng(s.mem)
      m == IF new THEN Append(s.mem, e.k) ELSE s.mem
  IN Out([s EXCEPT !.mem = IF Len(m) > s.max THEN Tail(m) ELSE m], IF (e.r = 1) = new THEN "" ELSE "added")
Has(e) == Out(s, IF (e.r = 1) = (e.k \in Rng(s.mem)) THEN "" ELSE "member")
\* Many threads, no more keys than the bound.
COp(e) == Out([s EXCEPT !.open = (e.t :> [k |-> e.k, add |-> e.add, sure |-> e.k \in s.sure]) @@ @,
                        !.may = IF e.add = 1 THEN @ \cup {e.k} ELSE @], "")
CRet(e) ==
  LET me == s.open[e.t] IN
  Out([s EXCEPT !.open = Drop(@, e.t), !.sure = IF me.add = 1 \/ e.r = 1 THEN @ \cup {me.k} ELSE @,
                !.won = IF me.add = 1 /\ e.r = 1 THEN @ \cup {me.k} ELSE @],
      CASE me.add = 1 /\ e.r = 1 /\ (me.sure \/ me.k \in s.won) -> "added"
        [] me.add = 0 /\ e.r = 1 /\ me.k \notin s.may -> "member"
        [] me.add = 0 /\ e.r = 0 /\ me.sure -> "member"
        [] OTHER -> "")
Step(e) ==
  CASE e.ev = "op"    -> Op(e)
    [] e.ev = "ret"   -> Ret(e)
    [] e.ev = "q"     -> Out(s, Quiet)
    [] e.ev = "give"  -> Give(e)
    [] e.ev = "given" -> Given(e)
    [] e.ev = "start" -> StartT(e)
    [] e.ev = "stop"  -> StopT(e)
    [] e.ev = "destroy" -> Out([s EXCEPT !.dest = TRUE, !.open = (0 :> [o |-> "destroy"]) @@ @], "")
    [] e.ev = "destroyed" -> Destroyed(e)
    [] e.ev = "add"   -> Add(e)
    [] e.ev = "has"   -> Has(e)
    [] e.ev = "cop"   -> COp(e)
    [] e.ev = "cret"  -> CRet(e)
    [] e.ev = "end"   -> Out(s, IF s.mode = "c" /\ s.open = << >> /\ \E k \in s.may : k \notin s.won THEN "added" ELSE "")
    [] OTHER          -> Out(s, e.ev)

Init == s = Init0("q", 0) /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN s' = Init0(e.mode, e.n) /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<s, bad>>
     ELSE LET o == Step(e)
          IN /\ s' = o.s
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
