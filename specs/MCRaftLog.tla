----------------------------- MODULE MCRaftLog -----------------------------
(* The log on an ordered key-value store whose last changes can be lost: keys are
   indices; key 0 says where an emptied log continues.                         *)
EXTENDS RaftLog
CONSTANTS N, Max, Marker, Script
VARIABLES L,     \* the log
          disk,  \* the versions of the store since the last sync, newest last; <<store, log>>
          n,     \* entries made
          ops, packed, h
vars == <<L, disk, n, ops, packed, h>>
S(x) == ToString(x)
Lg(x) == h' = IF Script THEN h \o x \o ";" ELSE ""
Keys(D) == DOMAIN D \ {0}
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
\* What a replica finds when it starts.
Load(D) == IF Keys(D) = {} THEN [start |-> IF 0 \in DOMAIN D THEN D[0] ELSE 1, ents |-> << >>]
           ELSE [start |-> Min(Keys(D)), ents |-> [i \in 1..(MaxOf(Keys(D)) - Min(Keys(D)) + 1) |-> D[Min(Keys(D)) + i - 1]]]
Store == disk[Len(disk)][1]
Save(D, l) == disk' = Append(disk, <<D, l>>)
Without(D, ks) == [k \in DOMAIN D \ ks |-> D[k]]
Init == L = Log0 /\ disk = << <<(<< >>), Log0>> >> /\ n = 0 /\ ops = 0 /\ packed = << >> /\ h = ""
AppendE == /\ n < Max /\ n' = n + 1
           /\ L' = AppendTo(L, n + 1)
           /\ Save((NextSlot(L) :> (n + 1)) @@ Store, L')
           /\ Lg("append 1 8") /\ UNCHANGED packed
Write(i) == /\ n < Max /\ MayWrite(L, i) /\ n' = n + 1
            /\ L' = WriteAt(L, i, n + 1)
            /\ Save((i :> (n + 1)) @@ Without(Store, (i + 1)..(NextSlot(L) - 1)), L')
            /\ Lg("write " \o S(i) \o " 2 8") /\ UNCHANGED packed
CompactTo(i) == /\ MayCompact(L, i) /\ i < Max + 2 /\ i >= 1
                /\ L' = Compact(L, i)
                /\ LET D == Without(Store, L.start..i) IN
                   Save(IF Marker /\ L'.ents = << >> THEN (0 :> (i + 1)) @@ D ELSE D, L')
                /\ Lg("compact " \o S(i)) /\ UNCHANGED <<n, packed>>
Pack(i, c) == /\ Has(L, i) /\ c >= 1 /\ i + c <= NextSlot(L) /\ packed # Part(L, i, c)
              /\ packed' = Part(L, i, c)
              /\ Lg("pack " \o S(i) \o " " \o S(c)) /\ UNCHANGED <<L, disk, n>>
ApplyP(i) == /\ packed # << >> /\ MayApply(L, i) /\ i <= Max + 1
             /\ L' = Apply(L, i, packed)
             /\ Save([k \in i..(i + Len(packed) - 1) |-> packed[k - i + 1]] @@ Store, L')
             /\ Lg("apply " \o S(i)) /\ UNCHANGED <<n, packed>>
Flush == /\ Len(disk) > 1 /\ disk' = <<disk[Len(disk)]>> /\ Lg("flush") /\ UNCHANGED <<L, n, packed>>
\* The process stops (nothing is lost), or the power fails.
Crash == /\ L' = Load(Store) /\ disk' = << <<Store, L>> >> /\ Lg("crash -1") /\ UNCHANGED <<n, packed>>
Power(k) == /\ k < Len(disk) /\ L' = Load(disk[k][1]) /\ disk' = <<disk[k]>>
            /\ Lg("crash " \o S(k - 1)) /\ UNCHANGED <<n, packed>>
Next == /\ ops < N /\ ops' = ops + 1
        /\ \/ AppendE \/ Flush \/ Crash
           \/ \E i \in 1..(Max + 1) : Write(i) \/ CompactTo(i) \/ ApplyP(i)
           \/ \E i \in 1..Max, c \in 1..2 : Pack(i, c)
           \/ \E k \in 1..N : Power(k)
Spec == Init /\ [][Next]_vars
View == <<L, disk, n, ops, packed>>
Emit == h' # h => PrintT("H " \o h')
----------------------------------------------------------------------------
Faithful == Load(Store) = L
Durable == \A k \in DOMAIN disk : Load(disk[k][1]) = disk[k][2]
=============================================================================
