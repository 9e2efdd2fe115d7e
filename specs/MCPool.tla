------------------------------- MODULE MCPool -------------------------------
EXTENDS Pool
CONSTANTS N, Script  \* N: tasks; kind of task k: "r" runs, "b" waits for its release, "n" gives another task
VARIABLES P, kind, started, rel, h
vars == <<P, kind, started, rel, h>>
S(x) == ToString(x)
Log(x) == h' = IF Script THEN h \o x ELSE ""
Init == P = << >> /\ kind = << >> /\ started = << >> /\ rel = {} /\ h = ""
Given(k) ==
  /\ Len(kind) < N
  /\ kind' = Append(kind, k)
  /\ P' = Give(P, Len(kind) + 1)
GiveIt(k) == Given(k) /\ Log("give:" \o S(Len(kind) + 1) \o ":" \o k \o ";") /\ UNCHANGED <<started, rel>>
Run(p) ==
  /\ CanStart(P, p)
  /\ P' = Start(P, p)
  /\ started' = Append(started, Head(P[p].got))
  /\ UNCHANGED <<kind, rel, h>>
Finish(p) ==
  /\ P[p].run # 0
  /\ kind[P[p].run] = "b" => P[p].run \in rel
  /\ P' = End(P, p)
  /\ UNCHANGED <<kind, started, rel, h>>
\* A running task gives a task, once.
Nested(p) ==
  /\ P[p].run # 0 /\ kind[P[p].run] = "n"
  /\ kind' = Append([kind EXCEPT ![P[p].run] = "r"], "r") /\ Len(kind) < N + 1
  /\ P' = Give(P, Len(kind) + 1)
  /\ UNCHANGED <<started, rel, h>>
Release(k) ==
  /\ k \in DOMAIN kind /\ kind[k] = "b" /\ k \notin rel
  /\ rel' = rel \cup {k}
  /\ Log("rel:" \o S(k) \o ";")
  /\ UNCHANGED <<P, kind, started>>
Next == \/ \E k \in {"r", "b", "n"} : GiveIt(k)
        \/ \E p \in DOMAIN P : Run(p) \/ Finish(p) \/ Nested(p)
        \/ \E k \in 1..N : Release(k)
Spec == Init /\ [][Next]_vars
View == <<P, kind, started, rel>>
Emit == h' # h => PrintT("H " \o h')
----------------------------------------------------------------------------
Once == \A i \in DOMAIN started, j \in DOMAIN started : started[i] = started[j] => i = j
Quiet == \A p \in DOMAIN P : ~CanStart(P, p) /\ (P[p].run # 0 => kind[P[p].run] = "b" /\ P[p].run \notin rel)
NoneWaits == Quiet => Len(started) = Len(kind)
OneAtATime == \A p \in DOMAIN P : Len(P[p].got) <= 1 /\ (P[p].got # << >> => P[p].run = 0)
=============================================================================
