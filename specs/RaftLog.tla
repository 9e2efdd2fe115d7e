------------------------------ MODULE RaftLog ------------------------------
(* What a replica keeps on disk: the replicated log, the term and vote, the
   cluster's members.  A log is its first index and its entries.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Log0 == [start |-> 1, ents |-> << >>]
NextSlot(L) == L.start + Len(L.ents)
Entry(L, i) == L.ents[i - L.start + 1]
Has(L, i) == i >= L.start /\ i < NextSlot(L)
AppendTo(L, e) == [L EXCEPT !.ents = Append(@, e)]
\* Replaces an entry; those after it are no longer valid.
WriteAt(L, i, e) == [L EXCEPT !.ents = Append(SubSeq(@, 1, i - L.start), e)]
Compact(L, i) == IF i + 1 >= NextSlot(L) THEN [start |-> i + 1, ents |-> << >>]
                 ELSE [start |-> i + 1, ents |-> SubSeq(L.ents, i - L.start + 2, Len(L.ents))]
Part(L, i, n) == SubSeq(L.ents, i - L.start + 1, i - L.start + n)
Apply(L, i, es) ==
  IF es = << >> THEN L
  ELSE IF L.ents = << >> THEN [start |-> i, ents |-> es]
  ELSE LET k == i - L.start IN
       [L EXCEPT !.ents = SubSeq(@, 1, k) \o es \o SubSeq(@, k + Len(es) + 1, Len(@))]
\* What each call may be asked for (NuRaft's part of the contract).
MayWrite(L, i) == i >= L.start /\ i <= NextSlot(L)
MayCompact(L, i) == i + 1 >= L.start
MayApply(L, i) == i >= L.start /\ (L.ents = << >> \/ i <= NextSlot(L))
=============================================================================
