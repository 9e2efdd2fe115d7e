------------------------------ MODULE MCQueue ------------------------------
(* All interleavings of short programs, at the granularity of critical sections
   and notifications, with spurious wakeups.                                  *)
EXTENDS Queue
CONSTANTS T, Programs, Spurious, Script
VARIABLES q, prog,  \* what each thread does
          pc,       \* per thread: [i, st]: st "go", "notify", "wait", "woken", "done"
          out,      \* sequence of [t, v]: what takers got
          cleared,  \* items removed by clear
          sp, h
vars == <<q, prog, pc, out, cleared, sp, h>>
Ops(p) == CASE p = "t" -> <<"pop">> [] p = "tt" -> <<"pop", "pop">> [] p = "p" -> <<"push">>
            [] p = "pp" -> <<"push", "push">> [] p = "c" -> <<"clear">> [] p = "pc" -> <<"push", "clear">>
            [] p = "cp" -> <<"clear", "push">> [] p = "tp" -> <<"pop", "push">> [] p = "ttt" -> <<"pop", "pop", "pop">>
            [] OTHER -> << >>
S(x) == ToString(x)
Val(t, i) == 10 * t + i
Op(t) == Ops(prog[t])[pc[t].i]
Init == /\ q = Queue0 /\ prog \in [1..T -> Programs] /\ pc = [t \in 1..T |-> [i |-> 1, st |-> "go"]]
        /\ out = << >> /\ cleared = {} /\ sp = 0 /\ h = ""
Log(x) == h' = IF Script THEN h \o x ELSE ""
Fin(t) == [i |-> pc[t].i + 1, st |-> IF pc[t].i = Len(Ops(prog[t])) THEN "done" ELSE "go"]
Set(t, x) == pc' = [pc EXCEPT ![t] = x]

Section(t) ==
  /\ pc[t].st \in {"go", "woken"}
  /\ LET o == Op(t) IN
     CASE o = "push" -> q' = Put(q, Val(t, pc[t].i)) /\ Set(t, [pc[t] EXCEPT !.st = "notify"]) /\ UNCHANGED <<out, cleared>>
       [] o = "clear" -> /\ q' = Clear(q) /\ Set(t, [pc[t] EXCEPT !.st = "notify"])
                         /\ cleared' = cleared \cup { q.buf[i] : i \in DOMAIN q.buf } /\ UNCHANGED out
       [] OTHER -> IF CanTake(q)
                   THEN q' = Take(q) /\ out' = Append(out, [t |-> t, v |-> Taken(q)]) /\ Set(t, Fin(t)) /\ UNCHANGED cleared
                   ELSE q' = [q EXCEPT !.wait = @ \cup {t}] /\ Set(t, [pc[t] EXCEPT !.st = "wait"]) /\ UNCHANGED <<out, cleared>>
  /\ Log(S(t) \o ",")
  /\ UNCHANGED <<prog, sp>>
\* push wakes one waiting thread, clear all of them.
Notify(t) ==
  /\ pc[t].st = "notify"
  /\ \/ q.wait = {} /\ UNCHANGED q /\ Set(t, Fin(t)) /\ Log(S(t) \o ",")
     \/ Op(t) = "push" /\ \E w \in q.wait :
          /\ q' = [q EXCEPT !.wait = @ \ {w}]
          /\ pc' = [pc EXCEPT ![w].st = "woken", ![t] = Fin(t)]
          /\ Log(S(t) \o "," \o IF Cardinality(q.wait) > 1 THEN S(w) \o "," ELSE "")
     \/ /\ Op(t) = "clear" /\ q.wait # {}
        /\ q' = [q EXCEPT !.wait = {}]
        /\ pc' = [x \in 1..T |-> IF x = t THEN Fin(t) ELSE IF x \in q.wait THEN [pc[x] EXCEPT !.st = "woken"] ELSE pc[x]]
        /\ Log(S(t) \o ",")
  /\ UNCHANGED <<prog, out, cleared, sp>>
Wake(w) ==
  /\ sp < Spurious /\ w \in q.wait
  /\ sp' = sp + 1
  /\ q' = [q EXCEPT !.wait = @ \ {w}]
  /\ Set(w, [pc[w] EXCEPT !.st = "woken"])
  /\ Log(S(90 + w) \o ",")
  /\ UNCHANGED <<prog, out, cleared>>
Next == \E t \in 1..T : Section(t) \/ Notify(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars
View == <<q, prog, pc, out, cleared, sp>>
Text == LET P(t) == "|" \o prog[t] IN h' \o P(1) \o P(2) \o (IF T > 2 THEN P(3) ELSE "") \o (IF T > 3 THEN P(4) ELSE "")
Emit == PrintT("H " \o Text)
----------------------------------------------------------------------------
Quiet == \A t \in 1..T : pc[t].st \in {"done", "wait"}
Got == { out[i].v : i \in DOMAIN out } \ {0}
Added == { Val(t, i) : t \in 1..T, i \in 1..2 } \cap
         UNION { { Val(t, i) : i \in { j \in DOMAIN Ops(prog[t]) : Ops(prog[t])[j] = "push" /\ (j < pc[t].i \/ (j = pc[t].i /\ pc[t].st = "notify")) } } : t \in 1..T }
InBuf == { q.buf[i] : i \in DOMAIN q.buf }
Once == \A i \in DOMAIN out, j \in DOMAIN out : out[i].v = out[j].v /\ out[i].v # 0 => i = j
Conserved == Added = Got \cup InBuf \cup cleared /\ Got \cap InBuf = {} /\ cleared \cap (Got \cup InBuf) = {}
\* Items of one producer are taken in order.
Order == \A i \in DOMAIN out, j \in DOMAIN out :
           i < j /\ out[i].v # 0 /\ out[j].v # 0 /\ out[i].v \div 10 = out[j].v \div 10 => out[i].v < out[j].v
Refused == \A i \in DOMAIN out : out[i].v = 0 => q.up
NobodyForgotten == Quiet /\ q.wait # {} => q.buf = << >> /\ ~q.up
=============================================================================
