------------------------------ MODULE TraceRpc ------------------------------
(* What callers and servers may observe.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib, TLC
VARIABLES s, l, bad
vars == <<s, l, bad>>
(* call: calls by number: [c, kind, id, sent, ok, due, st, acc]
     id: of its request, -1 before it is sent; sent: it could be sent;
     due: values that have reached the client under its number while it was open;
     st "open" or "ret"; acc: what the call told when it returned, "" before.
   del: deliveries of requests: [p, id, v, hnd, owed, st]
     st "new", "ans" (the handler has said v), "done".
   ids: per client, numbers used; gone: clients destroyed.                   *)
Init0(m, nc) == [mode |-> m, call |-> << >>, open |-> {}, del |-> << >>, owe |-> {}, ids |-> [c \in 1..nc |-> {}], gone |-> {}, stopped |-> FALSE]
Out(x, v) == [s |-> x, v |-> v]
Async(k) == s.call[k].kind \in {"a", "g", "n", "b"}
CantSend(k) == s.call[k].kind \in {"f", "g"}

Call(e) == Out([s EXCEPT !.call = Append(@, [c |-> e.c, kind |-> e.kind, id |-> -1, ok |-> FALSE, due |-> {}, st |-> "open", acc |-> ""]),
                         !.open = @ \cup {e.k}], "")
Sent(e) ==
  IF e.c = 0 \/ e.v \notin DOMAIN s.call THEN Out(s, "request-payload")
  ELSE LET k == s.call[e.v] IN
    Out([s EXCEPT !.call[e.v].id = e.id, !.call[e.v].ok = (e.ok = 1), !.ids[e.c] = @ \cup {e.id}],
        CASE k.c # e.c -> "request-payload"
          [] k.id # -1 -> "request-sent-twice"
          [] e.id = -1 -> "request-number"
          [] e.id \in s.ids[e.c] -> "request-number-reused"
          [] OTHER -> "")
\* A response arrives: it is due to the open call of its number, if there is one.
Rsp(e) ==
  LET K == { k \in s.open : s.call[k].c = e.c /\ s.call[k].id = e.id /\ s.call[k].ok }
  IN Out([s EXCEPT !.call = [k \in DOMAIN @ |-> IF k \in K THEN [@[k] EXCEPT !.due = @ \cup {e.v}] ELSE @[k]]], "")
Ret(e) ==
  LET k == s.call[e.k] IN
  Out([s EXCEPT !.call[e.k].st = "ret", !.open = @ \ {e.k}],
      CASE k.st # "open" -> "returned-twice"
        [] Async(e.k) /\ CantSend(e.k) -> "callback-after-refusal"
        [] e.v \in k.due -> ""
        [] e.v = 0 /\ CantSend(e.k) -> ""
        [] e.v = 0 /\ k.kind = "t" /\ e.late = 1 -> ""
        [] e.v = 0 /\ k.c \in s.gone -> ""
        [] e.v = 0 -> "failure-unfounded"
        [] OTHER -> "response-of-another")
Acc(e) ==
  Out([s EXCEPT !.call[e.k].acc = IF e.ok = 1 THEN "yes" ELSE "no", !.open = IF e.ok = 1 THEN @ ELSE @ \ {e.k},
                !.call[e.k].st = IF e.ok = 1 THEN @ ELSE "ret"],
      IF (e.ok = 1) = CantSend(e.k) THEN "accepted" ELSE "")

Req(e) ==
  LET good == e.v # -1 IN
  Out([s EXCEPT !.del = Append(@, [p |-> e.p, id |-> e.id, v |-> e.v, hnd |-> FALSE, r |-> -1, st |-> IF good THEN "new" ELSE "done"]),
                !.owe = IF good THEN @ \cup {e.d} ELSE @], "")
Hnd(e) ==
  LET d == s.del[e.d] IN
  Out([s EXCEPT !.del[e.d].hnd = TRUE],
      CASE d.v = -1 -> "malformed-handled"
        [] d.hnd -> "handled-twice"
        [] d.v # e.v -> "handler-payload"
        [] OTHER -> "")
Ans(e) == Out([s EXCEPT !.del[e.d].r = e.v, !.del[e.d].st = "ans"], "")
Rep(e) ==
  LET D == { d \in s.owe : LET x == s.del[d] IN x.p = e.p /\ x.id = e.id /\ x.st = "ans" /\ x.r = e.v } IN
  IF D = {} THEN Out(s, "reply")
  ELSE LET d == CHOOSE d \in D : TRUE IN Out([s EXCEPT !.del[d].st = "done", !.owe = @ \ {d}], "")
Quiet ==
  Out(s, CASE \E k \in s.open : s.call[k].due # {} -> "response-lost"
           [] \E k \in s.open : s.call[k].id = -1 -> "not-sent"
           [] \E k \in s.open : Async(k) /\ s.call[k].acc = "" -> "caller-held"
           [] \E k \in s.open : CantSend(k) -> "caller-held"
           [] \E k \in s.open : ~Async(k) /\ s.call[k].c \in s.gone -> "caller-held"
           [] ~s.stopped /\ \E d \in s.owe : s.del[d].st = "ans" -> "unanswered"
           [] \E d \in s.owe : ~s.del[d].hnd /\ s.mode # "n" -> "not-handled"
           [] OTHER -> "")
Step(e) ==
  CASE e.ev = "call" -> Call(e)
    [] e.ev = "sent" -> Sent(e)
    [] e.ev = "rsp"  -> Rsp(e)
    [] e.ev = "junk" -> Out(s, "")
    [] e.ev = "ret"  -> Ret(e)
    [] e.ev = "acc"  -> Acc(e)
    [] e.ev = "req"  -> Req(e)
    [] e.ev = "hnd"  -> Hnd(e)
    [] e.ev = "ans"  -> Ans(e)
    [] e.ev = "rep"  -> Rep(e)
    [] e.ev = "expired" -> Out(s, IF s.call[e.k].st = "open" THEN "no-timeout" ELSE "")
    [] e.ev = "close" -> Out([s EXCEPT !.gone = @ \cup {e.c}], "")
    [] e.ev = "stop" -> Out([s EXCEPT !.stopped = TRUE], "")
    [] e.ev = "q"    -> Quiet
    [] e.ev = "end"  -> Out(s, "")
    [] OTHER         -> Out(s, e.ev)

Init == s = Init0("a", 1) /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN s' = Init0(e.mode, e.c) /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<s, bad>>
     ELSE LET o == Step(e)
          IN /\ s' = o.s
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
