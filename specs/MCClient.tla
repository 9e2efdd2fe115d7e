------------------------------ MODULE MCClient ------------------------------
(* A client, its files, and the system, which executes what was sent to it
   at any time or never. *)
EXTENDS Wallet, TLC
CONSTANTS MaxTx, Two
VARIABLES s, T, sent, exec, dead, h
vars == <<s, T, sent, exec, dead, h>>
S(x) == ToString(x)
\* Transaction 1 is somebody else's and pays two coins; key 1 is own, 9 not.
\* sent: reached the system; exec: executed; dead: given up for good.
Init == /\ T = << [ins |-> {}, nin |-> 0, outs |-> << <<1, 1>>, <<3, 1>>, <<2, 9>> >>] >>
        /\ s = [Init0 EXCEPT !.keys = {1}]
        /\ sent = {1} /\ exec = {} /\ dead = {} /\ h = ""
Log(x) == h' = h \o x \o ";"
Ins == (SUBSET All(s)) \ {{}}
Runs(t, e, U) == t \notin e /\ \A c \in U[t].ins : c[1] \in e /\ \A u \in e : c \notin U[u].ins
\* What a send comes to: the answer may say so or not.
Sending(t, U, s1, txt) ==
  \E a \in {"confirmed", "pending", "none", "lost"} :
     /\ a = "confirmed" => Runs(t, exec, U)
     /\ LET s2 == Send(s1, t) IN s' = IF a = "confirmed" THEN Settle(U, s2, t) ELSE s2
     /\ exec' = IF a = "confirmed" THEN exec \cup {t} ELSE exec
     /\ sent' = IF a = "none" THEN sent ELSE sent \cup {t}
     /\ Log(txt \o " " \o (IF a = "lost" THEN "none" ELSE a))
     /\ UNCHANGED dead
Tx(ins, v, p) == LET a == Sum(T, s, ins) IN
  [ins |-> ins, nin |-> Cardinality(ins), outs |-> IF a = v THEN << <<v, p>> >> ELSE << <<v, p>>, <<a - v, 1>> >>]
Picks(v) == { ins \in Ins : LET a == Sum(T, s, ins) IN a >= v /\ \A c \in ins : a - Val(T, s, c) < v }
SendA == /\ Len(T) < MaxTx
         /\ \E v \in {1, 4}, p \in {1, 9} : \E ins \in Picks(v) :
              LET t == Tx(ins, v, p) U == Append(T, t) IN
              T' = U /\ Sending(Len(U), U, Register(U, s, Len(U)), "send " \o S(v) \o " " \o S(p))
CreateA == /\ Len(T) < MaxTx
           /\ \E v \in {1, 4}, p \in {9} : \E ins \in Picks(v) :
                LET U == Append(T, Tx(ins, v, p)) IN
                T' = U /\ s' = Register(U, s, Len(U)) /\ Log("create " \o S(v) \o " " \o S(p)) /\ UNCHANGED <<sent, exec, dead>>
ResendA == \E t \in 2..Len(T) : /\ t \notin exec \cup dead /\ T[t].ins # {}
                                /\ Sending(t, T, s, "resend " \o S(t - 2)) /\ UNCHANGED T
MintA == /\ Len(T) < MaxTx
         /\ \E r \in {"confirmed", "none"} :
              LET U == Append(T, [ins |-> {}, nin |-> 0, outs |-> << <<2, 1>>, <<2, 1>> >>])
                  t == Len(U)
                  ok == r = "confirmed" /\ Two
                  s1 == Send(s, t) IN
              /\ T' = U /\ s' = IF ok THEN Settle(U, s1, t) ELSE s1
              /\ exec' = IF ok THEN exec \cup {t} ELSE exec
              /\ sent' = IF r = "none" THEN sent ELSE sent \cup {t}
              /\ Log("mint 2 2 " \o r) /\ UNCHANGED dead
ImportA == \E i \in 0..2 : /\ 1 \notin exec \/ <<1, i>> \notin s.avail \cup s.ps
                           /\ \A t \in DOMAIN T : <<1, i>> \notin T[t].ins
                           /\ s' = Import(T, s, <<1, i>>) /\ s' # s
                           /\ Log("import 0 " \o S(i)) /\ UNCHANGED <<T, sent, exec, dead>>
ConfA == \E t \in exec : /\ Known(s, t) /\ s' = Settle(T, s, t) /\ Log("confirm " \o S(t - 1)) /\ UNCHANGED <<T, sent, exec, dead>>
AbandonA == \E t \in s.pend \ exec : /\ s' = Abandon(T, s, t) /\ dead' = dead \cup {t}
                                     /\ Log("abandon " \o S(t - 1)) /\ UNCHANGED <<T, sent, exec>>
ExecA == \E t \in sent \ dead : /\ Runs(t, exec, T) /\ exec' = exec \cup {t} /\ UNCHANGED <<s, T, sent, dead, h>>
RECURSIVE Stat(_)
Stat(i) == IF i = Len(T) THEN "" ELSE " " \o (IF (IF i = 0 THEN Len(T) ELSE i) \in exec THEN "yes" ELSE "no") \o Stat(i + 1)
Asked == s.pend \cup { c[1] : c \in s.pin }
SyncA == /\ Asked # {} /\ s' = SettleAll(T, s, Asked \cap exec)
         /\ Log("sync" \o Stat(0)) /\ UNCHANGED <<T, sent, exec, dead>>
RestartA == /\ h # "" /\ Log("restart") /\ UNCHANGED <<s, T, sent, exec, dead>>
Next == SendA \/ CreateA \/ ResendA \/ MintA \/ ImportA \/ ConfA \/ AbandonA \/ ExecA \/ SyncA
Spec == Init /\ [][Next]_vars
View == <<s, T, sent, exec, dead>>
Emit == h' # h => PrintT("H " \o h')
\* What the system says can be spent, of ours.
Unspent == { c \in UNION { { <<t, i>> : i \in 0..(Len(T[t].outs) - 1) } : t \in exec } :
               T[c[1]].outs[c[2] + 1][2] = 1 /\ \A u \in exec : c \notin T[u].ins }
\* The wallet has no coin the system does not have ...
NoPhantom == s.avail \subseteq Unspent
\* ... nor one that is used by a transaction that may be executed yet ...
NoDouble == \A t \in (2..Len(T)) \ (exec \cup dead) : T[t].ins \cap s.avail = {}
\* ... and none is lost: it is in the wallet, used by a transaction that is
\* not given up, or will be there once the client has asked.
Imported == { c \in Unspent : c[1] # 1 \/ c \in s.avail \cup s.pin \cup s.ps }
Kept == Imported \subseteq s.avail \cup s.pin \cup UNION { Own(T, s, t) : t \in s.pend }
                           \cup UNION { T[t].ins : t \in (2..Len(T)) \ (exec \cup dead) }
\* Once it has asked about everything and nothing is under way, they agree.
Agree == (s.pend = {} /\ s.pin = {} /\ s.ps = {}) => s.avail = Imported
Disjoint == s.ps \cap s.avail = {}
=============================================================================
