------------------------------- MODULE MCRLS -------------------------------
EXTENDS RLS
CONSTANTS Brokers, MaxLen
VARIABLES s, h, last
vars == <<s, h, last>>

B(b) == IF b THEN "1" ELSE "0"
Upds == [Key -> {NoUpd, 1}]
\* the value written names its writer, so that a wrong value is visible
UpdOf(t, u) == [k \in Key |-> IF u[k] = NoUpd THEN NoUpd ELSE 10 * t + k]
RECURSIVE UStr(_, _)
UStr(u, k) == IF k > NK THEN ""
              ELSE (IF u[k] = NoUpd THEN "" ELSE " " \o ToString(k) \o "=" \o ToString(u[k]))
                   \o UStr(u, k + 1)

Do(r, str, l) == /\ s' = r.s
                 /\ h' = h \o str \o ";"
                 /\ last' = l

Init == s = Init0 /\ h = "" /\ last = <<"init", 0>>

Next ==
  \E t \in Tk :
    \/ \E k \in Key, ty \in {"r", "w"}, b \in Brokers :
         Do(TryLock(s, t, b, k, ty, s.st[t] = "none"),
            "lock " \o ToString(t) \o " " \o ToString(b) \o " " \o ToString(k)
              \o " " \o ty \o " " \o B(s.st[t] = "none"), <<"lock", t>>)
    \/ \E u \in Upds :
         Do(Prepare(s, t, UpdOf(t, u)),
            "prepare " \o ToString(t) \o UStr(UpdOf(t, u), 1), <<"prepare", t>>)
    \/ Do(Commit(s, t), "commit " \o ToString(t), <<"commit", t>>)
    \/ s.st[t] # "committed" /\
       Do(Rollback(s, t), "rollback " \o ToString(t), <<"rollback", t>>)
    \/ Do(Finish(s, t), "finish " \o ToString(t), <<"finish", t>>)

Spec == Init /\ [][Next]_vars
View == s
Bound == TRUE
Emit == PrintT("H " \o h')

InvC01 == Exclusion(s) /\ HoldersLive(s)
InvC02 == WaitOnlyOlder(s) /\ NoNeedlessWait(s) /\ Progress(s)
InvC03 == StagedOnlyPrepared(s)

\* C01: a lock, once granted, is kept until its ticket commits, rolls back, or
\* (if not prepared) is wounded by an older ticket.
Retain == [][\A t \in Tk, k \in Key :
  Held(s, t, k) # "n" =>
    \/ Held(s', t, k) = Held(s, t, k)
    \/ Held(s, t, k) = "r" /\ Held(s', t, k) = "w" /\ last' = <<"lock", t>>
    \/ last' \in {<<"commit", t>>, <<"rollback", t>>}
    \/ s.st[t] = "begun" /\ s'.st[t] = "wounded" /\ last'[1] = "lock" /\ last'[2] < t
    \* an upgrade that was waiting is granted when the other readers leave
    \/ s.q[k][t] = "w" /\ Held(s', t, k) = "w"]_vars

\* C02: a prepared ticket is never wounded.
PreparedSafe == [][\A t \in Tk : s.st[t] = "prepared" =>
  \/ s'.st[t] = "prepared"
  \/ last' \in {<<"commit", t>>, <<"rollback", t>>}]_vars

\* C03: values change only by commit, by exactly the staged set.
ValuesByCommit == [][s'.val # s.val =>
  /\ last'[1] = "commit"
  /\ s.st[last'[2]] = "prepared"
  /\ \A k \in Key : s'.val[k] = IF s.upd[last'[2]][k] = NoUpd
                               THEN s.val[k] ELSE s.upd[last'[2]][k]]_vars
=============================================================================
