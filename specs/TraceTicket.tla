---------------------------- MODULE TraceTicket ----------------------------
(* What requesters may observe, whenever the clients choose to ask for more.  *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib, TLC
VARIABLES s, l, bad
vars == <<s, l, bad>>
(* req: requests by number: [c, st, n, lo, hi, err, pre]
     st "open" called, "wait" the call has returned; n: number given, -1 error,
     -2 none yet.  The number must be above lo and below hi (order of
     requests); pre: requests before this one still without a number.
   pool: per client, intervals [lo, hi) of numbers received and not given.
   msg: [c, st]; rsp: [m, k, lo, hi]; ent: the range of each log entry.
   owner: ranges answered, with their message.  busy: clients that are handed a
   response since nothing was going on last.                                 *)
Init0(b, nc) ==
  [b |-> b, req |-> << >>, pool |-> [c \in 1..nc |-> {}], top |-> [c \in 1..nc |-> -1],
   msg |-> << >>, rsp |-> << >>, ent |-> << >>, owner |-> {}, prog |-> [c \in 1..nc |-> {}], busy |-> {}, open |-> {}]
Big == 2000000000
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Out(x, v) == [s |-> x, v |-> v]
\* open: requests without an answer
Of(c) == { i \in s.open : s.req[i].c = c }
Waiting(c) == { i \in Of(c) : s.req[i].st = "wait" }

Call(e) ==
  IF e.i \in DOMAIN s.req THEN Out(s, "driver") ELSE
  Out([s EXCEPT !.req = (e.i :> [c |-> e.c, st |-> "open", n |-> -2, lo |-> s.top[e.c], hi |-> Big, err |-> FALSE,
                                 pre |-> Waiting(e.c), have |-> s.pool[e.c] # {} /\ Of(e.c) = {} /\ e.c \notin s.busy])
                         @@ [i \in DOMAIN @ |-> IF i \in Of(e.c) THEN [@[i] EXCEPT !.have = FALSE] ELSE @[i]],
                !.open = @ \cup {e.i}], "")
\* Number n leaves the interval it is in.
Take(P, n) == LET X == { r \in P : r[1] <= n /\ n < r[2] }
              IN (P \ X) \cup UNION { { y \in { <<r[1], n>>, <<n + 1, r[2]>> } : y[1] < y[2] } : r \in X }
In(P, lo, hi) == \E r \in P : r[1] <= lo /\ hi <= r[2]
Cb(e) ==
  IF e.i \notin s.open THEN Out(s, "callback-again")
  ELSE LET r == s.req[e.i] IN
    IF e.n = -1
    THEN Out([s EXCEPT !.open = @ \ {e.i}, !.req[e.i].n = -1], IF r.err THEN "" ELSE "error-unfounded")
    ELSE Out([s EXCEPT !.open = @ \ {e.i}, !.pool[r.c] = Take(@, e.n),
                       !.top[r.c] = IF r.st = "wait" THEN Max(@, e.n) ELSE @,
                       !.req = [i \in DOMAIN @ |-> IF i = e.i THEN [r EXCEPT !.n = e.n]
                                                   ELSE IF i \in r.pre \cap s.open THEN [@[i] EXCEPT !.hi = Min(@, e.n)] ELSE @[i]]],
             IF ~In(s.pool[r.c], e.n, e.n + 1) THEN "number"
             ELSE IF e.n <= r.lo \/ e.n >= r.hi THEN "order" ELSE "")
Ret(e) ==
  LET r == s.req[e.i] IN
  IF r.n # -2
  THEN Out([s EXCEPT !.req[e.i].st = "wait", !.top[r.c] = Max(@, r.n)], IF e.ok = 1 THEN "" ELSE "refused-and-answered")
  ELSE IF e.ok = 1 THEN Out([s EXCEPT !.req[e.i].st = "wait"], IF r.have THEN "not-served" ELSE "")
  ELSE Out([s EXCEPT !.req[e.i].st = "refused", !.open = @ \ {e.i}], IF ~r.err THEN "refused" ELSE IF r.have THEN "not-served" ELSE "")
\* Requests served at once with lo .. hi-1.
Run(e) ==
  LET T == { r \in s.pool[e.c] : r[1] < e.hi /\ e.lo < r[2] }
      N == UNION { r[1] .. (r[2] - 1) : r \in T } \cap (e.lo .. (e.hi - 1)) IN
  Out([s EXCEPT !.pool[e.c] = (@ \ T) \cup UNION { { y \in { <<r[1], Min(r[2], e.lo)>>, <<Max(r[1], e.hi), r[2]>> } : y[1] < y[2] } : r \in T },
                !.top[e.c] = Max(@, e.hi - 1)],
      IF Cardinality(N) # e.hi - e.lo THEN "number"
      ELSE IF e.lo <= s.top[e.c] THEN "order"
      ELSE IF Waiting(e.c) # {} THEN "overtaken" ELSE "")
Err(t, c) == [t EXCEPT !.req = [i \in DOMAIN @ |-> IF i \in Of(c) THEN [@[i] EXCEPT !.err = TRUE] ELSE @[i]]]

Commit(e) ==
  IF e.k # "range" THEN Out(s, "entry-" \o e.k)
  ELSE IF e.i \in DOMAIN s.ent THEN Out(s, IF s.ent[e.i] = <<e.lo, e.hi>> THEN "" ELSE "replicas-differ")
  ELSE Out([s EXCEPT !.ent = Append(@, <<e.lo, e.hi>>)],
           CASE e.hi - e.lo # s.b -> "range-size"
             [] Len(s.ent) > 0 /\ e.lo < s.ent[Len(s.ent)][2] -> "range-reused"
             [] OTHER -> "")
\* A response to message m exists.
Rsp(e) ==
  Out([s EXCEPT !.rsp = Append(@, [m |-> e.m, k |-> e.k, lo |-> e.lo, hi |-> e.hi]),
                !.owner = IF e.k = "range" THEN @ \cup {<<e.lo, e.m>>} ELSE @],
      CASE e.m = 0 -> "response-to-nobody"
        [] e.k \notin {"range", "null"} -> "response"
        [] e.k = "range" /\ ~\E n \in DOMAIN s.ent : s.ent[n] = <<e.lo, e.hi>> -> "range-uncommitted"
        [] e.k = "range" /\ \E o \in s.owner : o[1] = e.lo -> "range-answered-twice"
        [] OTHER -> "")
Ans(e) ==
  LET r == s.rsp[e.r]
      m == r.m IN
  IF s.msg[m].st = "done" THEN Out(s, "")
  ELSE LET c == s.msg[m].c
           t == [s EXCEPT !.msg[m].st = "done", !.busy = @ \cup {c}]
       IN IF r.k = "range"
          THEN Out([t EXCEPT !.pool[c] = @ \cup {<<r.lo, r.hi>>}, !.prog[c] = IF @ = {} THEN Waiting(c) ELSE @], "")
          ELSE Out(Err(t, c), "")
\* Nothing is going on.
Quiet ==
  LET W == { c \in DOMAIN s.pool : Waiting(c) # {} } IN
  Out([s EXCEPT !.prog = [c \in DOMAIN @ |-> {}], !.busy = {}],
      CASE \E c \in W : ~\E m \in DOMAIN s.msg : s.msg[m].c = c /\ s.msg[m].st = "sent" -> "forgotten"
        [] \E c \in W : s.prog[c] # {} /\ s.prog[c] \subseteq Waiting(c) -> "no-progress"
        [] OTHER -> "")
Step(e) ==
  CASE e.ev = "call"    -> Call(e)
    [] e.ev = "cb"      -> Cb(e)
    [] e.ev = "ret"     -> Ret(e)
    [] e.ev = "run"     -> Run(e)
    [] e.ev = "fetch"   -> Out([s EXCEPT !.msg = Append(@, [c |-> e.c, st |-> "sent"])], "")
    [] e.ev = "nofetch" -> Out(Err(s, e.c), "")
    [] e.ev = "commit"  -> Commit(e)
    [] e.ev = "rsp"     -> Rsp(e)
    [] e.ev = "ans"     -> Ans(e)
    [] e.ev = "q"       -> Quiet
    [] e.ev = "end"     -> Out(s, IF s.open # {} THEN "unanswered" ELSE "")
    [] OTHER            -> Out(s, e.ev)

Init == s = Init0(1, 1) /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN s' = Init0(e.b, e.c) /\ bad' = ""
     ELSE IF bad # "" THEN UNCHANGED <<s, bad>>
     ELSE LET o == Step(e)
          IN /\ s' = o.s
             /\ bad' = o.v
             /\ (o.v # "" => Report(l, o.v, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
