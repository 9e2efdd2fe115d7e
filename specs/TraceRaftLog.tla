---------------------------- MODULE TraceRaftLog ----------------------------
(* After every call the whole log is compared.  vers: the logs that may be found
   after a power failure, the newest last; lost: from some change on nothing
   reached the disk.                                                           *)
EXTENDS RaftLog, TraceLib
VARIABLES s, l, bad
vars == <<s, l, bad>>
Default(n) == [i \in 1..n |-> 1000 * i + (IF i = 1 THEN 100 ELSE 1)]
Init0(n) == [L |-> Log0, vers |-> <<Log0>>, packed |-> << >>, n |-> n, lost |-> FALSE, any |-> FALSE,
             st |-> { <<-1, -1>> }, cf |-> { <<0, Default(n)>> }]
Out(x, v) == [s |-> x, v |-> v]
Changed(L) == [s EXCEPT !.L = L, !.vers = Append(@, L)]
\* A log is shown as the driver reads it.
SameLog(L, e) == e.start = L.start /\ e.next = NextSlot(L) /\ e.at = L.ents
LogE(e) ==
  IF s.any
  THEN LET c == { k \in DOMAIN s.vers : SameLog(s.vers[k], e) } IN
       IF c = {} THEN Out(s, "restarted")
       ELSE LET k == CHOOSE x \in c : \A y \in c : x >= y
            IN Out([s EXCEPT !.any = FALSE, !.L = s.vers[k], !.vers = <<s.vers[k]>>], "")
  ELSE IF s.lost THEN Out(s, "")
  ELSE Out(s, CASE e.start # s.L.start -> "start"
                [] e.next # NextSlot(s.L) -> "next"
                [] e.at # s.L.ents -> "entries"
                [] e.range # s.L.ents -> "range"
                [] e.terms # [i \in DOMAIN s.L.ents |-> s.L.ents[i] % 10] -> "terms"
                [] e.last # (IF s.L.ents = << >> THEN 0 ELSE s.L.ents[Len(s.L.ents)]) -> "last"
                [] \E i \in DOMAIN e.none : e.none[i] # 0 -> "none"
                [] OTHER -> "")
\* What a server's files say: the values of the last save, or, if a process stopped in it, those before.
Files(e) ==
  LET st == <<e.term, e.vote>>
      cf == <<e.cfg, e.srv>>
  IN Out([s EXCEPT !.st = {st}, !.cf = {cf}],
         CASE st \notin s.st -> "state" [] cf \notin s.cf -> "config" [] OTHER -> "")
Step(e) ==
  CASE e.ev = "append" -> Out(Changed(AppendTo(s.L, e.e)), IF s.lost \/ e.i = NextSlot(s.L) THEN "" ELSE "append")
    [] e.ev = "write" -> Out(Changed(WriteAt(s.L, e.i, e.e)), "")
    [] e.ev = "compact" -> Out(Changed(Compact(s.L, e.i)), IF e.ok = 1 THEN "" ELSE "compact")
    [] e.ev = "pack" -> Out([s EXCEPT !.packed = Part(s.L, e.i, e.c)], "")
    [] e.ev = "apply" -> Out(Changed(Apply(s.L, e.i, s.packed)), "")
    [] e.ev = "flush" -> Out(IF s.lost THEN s ELSE [s EXCEPT !.vers = <<s.L>>], IF e.ok = 1 THEN "" ELSE "flush")
    [] e.ev = "threads" -> Out([s EXCEPT !.L.ents = @ \o e.es, !.vers = <<[s.L EXCEPT !.ents = @ \o e.es]>>], IF e.bad = 0 THEN "" ELSE "threads")
    [] e.ev = "lose" -> Out([s EXCEPT !.lost = TRUE, !.vers = <<s.L>>], "")
    [] e.ev = "restart" -> Out([s EXCEPT !.any = TRUE, !.lost = FALSE, !.vers = IF e.power = 1 \/ s.lost THEN @ ELSE <<s.L>>], "")
    [] e.ev = "log" -> LogE(e)
    [] e.ev = "files" -> Files(e)
    [] e.ev = "state" -> Out([s EXCEPT !.st = (IF e.stop = 1 THEN @ ELSE {}) \cup { <<e.term, e.vote>> }], "")
    [] e.ev = "config" -> Out([s EXCEPT !.cf = (IF e.stop = 1 THEN @ ELSE {})
                                              \cup { <<e.cfg, [i \in 1..e.n |-> 1000 * i + i]>> }], "")
    [] OTHER -> Out(s, e.ev)

Init == s = Init0(0) /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN s' = Init0(e.n) /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<s, bad>>
     ELSE LET o == Step(e)
          IN /\ s' = o.s
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
