------------------------------ MODULE MCTicket ------------------------------
EXTENDS Ticket, TLC
CONSTANTS C, B, MaxGet, MaxMsg, MaxLog, MaxFault, Low
VARIABLES cl,    \* the clients
          n,     \* requests made
          msg,   \* [c, st]: st "sent", "done" (one response has been used)
          log,   \* message answered by each entry
          rsp,   \* responses that may arrive: [m, k] with k the entry, 0 = failure
          got,   \* set of [c, i, n]: number n given to request i, -1 error
          down,  \* clients that cannot send now
          f, h
vars == <<cl, n, msg, log, rsp, got, down, f, h>>
S(x) == ToString(x)
Init == /\ cl = [c \in 1..C |-> Client0] /\ n = 0 /\ msg = << >> /\ log = << >> /\ rsp = {} /\ got = {}
        /\ down = {} /\ f = 0 /\ h = ""
Ask(a, c) == IF a /\ c \notin down THEN Append(msg, [c |-> c, st |-> "sent"]) ELSE msg

Req(c) ==
  /\ n < MaxGet /\ Len(msg) < MaxMsg
  /\ LET g == Get(cl[c], n + 1, c \notin down, Low) IN
       /\ cl' = [cl EXCEPT ![c] = g.c]
       /\ n' = n + 1
       /\ msg' = Ask(g.ask, c)
       /\ got' = IF g.r = 0 THEN got ELSE got \cup {[c |-> c, i |-> n + 1, n |-> g.r]}
  /\ h' = h \o "get " \o S(c) \o " 1 0;"
  /\ UNCHANGED <<log, rsp, down, f>>
Commit(m) ==
  /\ Len(log) < MaxLog
  /\ log' = Append(log, m)
  /\ rsp' = rsp \cup {[m |-> m, k |-> Len(log) + 1]}
  /\ h' = h \o "deliver " \o S(m) \o ";"
  /\ UNCHANGED <<cl, n, msg, got, down, f>>
Null(m) ==
  /\ f < MaxFault /\ msg[m].st = "sent"
  /\ f' = f + 1
  /\ msg' = [msg EXCEPT ![m].st = "done"]
  /\ LET c == msg[m].c
         g == Failed(cl[c]) IN
       /\ cl' = [cl EXCEPT ![c] = g.c]
       /\ got' = got \cup { [c |-> c, i |-> i, n |-> -1] : i \in g.failed }
  /\ h' = h \o "null " \o S(m) \o ";"
  /\ UNCHANGED <<n, log, rsp, down>>
\* Responses are numbered by their entry; a second one for a message is ignored.
Ans(r) ==
  /\ Len(msg) < MaxMsg
  /\ LET m == r.m
         c == msg[m].c
         g == Got(cl[c], Numbers(Range(B, r.k).lo + 1, Range(B, r.k).hi + 1), c \notin down)
     IN IF msg[m].st = "done"
        THEN f < MaxFault /\ f' = f + 1 /\ UNCHANGED <<cl, msg, got>>
        ELSE /\ cl' = [cl EXCEPT ![c] = g.c]
             /\ msg' = [Ask(g.ask, c) EXCEPT ![m].st = "done"]
             /\ got' = got \cup { [c |-> c, i |-> x[1], n |-> x[2]] : x \in Rng(g.given) }
                           \cup { [c |-> c, i |-> i, n |-> -1] : i \in g.failed }
             /\ UNCHANGED f
  /\ h' = h \o "ans " \o S(r.k) \o ";"
  /\ UNCHANGED <<n, log, rsp, down>>
Net(c) ==
  /\ f < MaxFault
  /\ f' = f + 1
  /\ down' = IF c \in down THEN down \ {c} ELSE down \cup {c}
  /\ h' = h \o "net " \o S(c) \o " " \o S(IF c \in down THEN 1 ELSE 0) \o ";"
  /\ UNCHANGED <<cl, n, msg, log, rsp, got>>
Next == \/ \E c \in 1..C : Req(c) \/ Net(c)
        \/ \E m \in DOMAIN msg : Commit(m) \/ Null(m)
        \/ \E r \in rsp : Ans(r)
Spec == Init /\ [][Next]_vars
View == <<cl, n, msg, log, rsp, got, down, f>>
Emit == PrintT("H " \o h')
----------------------------------------------------------------------------
Num == { g \in got : g.n > 0 }
Unique == \A x \in Num, y \in Num : x.n = y.n => x = y
OnceEach == \A x \in got, y \in got : x.i = y.i => x = y
Increasing == \A x \in Num, y \in Num : x.c = y.c /\ x.i < y.i => x.n < y.n
Kept == \A c \in 1..C : \A k \in Rng(cl[c].have) : \A g \in Num : g.n # k
NotBoth == \A c \in 1..C : cl[c].wait = << >> \/ cl[c].have = << >>
\* Whoever waits will be served: a message that has not been answered is out.
Waiting == \A c \in 1..C : cl[c].wait # << >> => \E m \in DOMAIN msg : msg[m].c = c /\ msg[m].st = "sent"
Accounted == \A i \in 1..n : \/ \E g \in got : g.i = i
                             \/ \E c \in 1..C : i \in Rng(cl[c].wait)
OneFetch == \A c \in 1..C : cl[c].busy <=> \E m \in DOMAIN msg : msg[m].c = c /\ msg[m].st = "sent"
=============================================================================
