------------------------------- MODULE MCRLSF -------------------------------
EXTENDS RLSF
CONSTANTS MaxPend, MaxCrash
VARIABLES f, h, told, crashes
vars == <<f, h, told, crashes>>

Upds == [Key -> {NoUpd, 1}]
UpdOf(t, u) == [k \in Key |-> IF u[k] = NoUpd THEN NoUpd ELSE 10 * t + k]
RECURSIVE UStr(_, _)
UStr(u, k) == IF k > NK THEN ""
              ELSE (IF u[k] = NoUpd THEN "" ELSE " " \o ToString(k) \o "=" \o ToString(u[k]))
                   \o UStr(u, k + 1)

Pending(t, op) == \E i \in DOMAIN f.pend : f.pend[i].t = t /\ f.pend[i].op = op
Idle(t) == \A i \in DOMAIN f.pend : f.pend[i].t # t

Told(r, str) == [t \in Tk |->
  IF told[t] = "ending" THEN "ending"
  ELSE IF <<"prepare", t, "ok">> \in r.reps THEN "prepared"
  ELSE IF <<"commit", t, "ok">> \in r.reps THEN "committed"
  ELSE IF str = "rollback " \o ToString(t) \/ str = "finish " \o ToString(t) THEN "ending"
  ELSE told[t]]

Do(r, str) == /\ f' = r.s
              /\ h' = h \o str \o ";"
              /\ told' = Told(r, str)
              /\ UNCHANGED crashes

Init == f = FInit /\ h = "" /\ told = [t \in Tk |-> "no"] /\ crashes = 0

Room == Len(f.pend) < MaxPend

\* Brokers follow the protocol: commit what was prepared, roll back what is not
\* known to be committed, finish what was committed; any request may be sent
\* again.
Next ==
  \/ \E t \in Tk :
       \/ \E k \in Key, ty \in {"r", "w"} : told[t] # "ending" /\
            Do(FLock(f, t, t, k, ty, f.imp.st[t] = "none"),
               "lock " \o ToString(t) \o " " \o ToString(t) \o " " \o ToString(k) \o " " \o ty
               \o (IF f.imp.st[t] = "none" THEN " 1" ELSE " 0"))
       \/ Room /\ told[t] # "ending" /\ \E u \in Upds :
            Do(FPrepare(f, t, t, UpdOf(t, u)),
               "prepare " \o ToString(t) \o " " \o ToString(t) \o UStr(UpdOf(t, u), 1))
       \/ Room /\ told[t] \in {"prepared", "committed"} /\
            Do(FCommit(f, t), "commit " \o ToString(t))
       \/ Room /\ told[t] # "committed" /\ ~Pending(t, "commit") /\ f.rst[t] # "committed" /\
            Do(FRollback(f, t), "rollback " \o ToString(t))
       \/ Room /\ (told[t] = "committed" \/ f.rst[t] = "committed") /\
            Do(FFinish(f, t), "finish " \o ToString(t))
  \/ f.pend # << >> /\ Do(FApply(f), "apply")
  \/ crashes < MaxCrash /\ \E n \in 0..Len(f.pend) :
       LET r == FCrash(f, n) IN
       /\ f' = r.s
       /\ h' = h \o "crash " \o ToString(n) \o ";"
       /\ crashes' = crashes + 1
       /\ UNCHANGED told

Spec == Init /\ [][Next]_vars
View == <<f, told, crashes>>
Emit == PrintT("H " \o h')

InvC04 ==
  /\ ValAgree(f) /\ PreparedDisjoint(f) /\ LeaderKnows(f)
  /\ Exclusion(f.imp)
  /\ \A t \in Tk :
       /\ told[t] = "prepared" => f.rst[t] \in {"prepared", "committed"}
       /\ told[t] = "committed" => f.rst[t] = "committed"

\* Values change only when a command to commit a prepared ticket is applied, by
\* exactly its staged updates.
ValuesByCommit == [][
  f'.val # f.val => \E t \in Tk : f.rst[t] = "prepared" /\ f'.rst[t] \in {"committed", "none"}]_vars
=============================================================================
