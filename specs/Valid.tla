------------------------------- MODULE Valid -------------------------------
(* What a valid transaction is, and what an attested one is.

   An amount is a word of Limbs digits, the least significant one first.
   A key is a positive number, something that is not a key a negative one, and
   a commitment is the number of what it commits to (or a number that is none
   of these).  An input is [t, i, c, v]: the transaction and the index of the
   output it spends, and the commitment and the amount of that output.  An
   output is [c, v].  A witness is [len, ty, key, by, over]: its length, its
   type, the key it reveals, the key that made its signature and what that key
   signed (the inputs and outputs of a transaction).                         *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
CONSTANTS Base, Limbs, WLen

Zero == [i \in 1..Limbs |-> 0]
\* Carry into digit n + 1 of a sum
RECURSIVE Carry(_, _, _)
Carry(a, b, n) == IF n = 0 THEN 0 ELSE (a[n] + b[n] + Carry(a, b, n - 1)) \div Base
Add(a, b) == TLCEval([n \in 1..Limbs |-> (a[n] + b[n] + Carry(a, b, n - 1)) % Base])
Over(a, b) == Carry(a, b, Limbs) # 0

\* The sum of the amounts of q, and whether it does not fit in a word.
RECURSIVE Acc(_, _, _, _)
Acc(q, n, s, o) == IF n > Len(q) THEN [s |-> s, o |-> o] ELSE Acc(q, n + 1, TLCEval(Add(s, q[n].v)), TLCEval(o \/ Over(s, q[n].v)))
Sum(q) == Acc(q, 1, Zero, FALSE).s
Overflows(q) == Acc(q, 1, Zero, FALSE).o

Op(x) == <<x.t, x.i>>
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Body(ins, outs) == <<ins, outs>>

\* The first rule a witness breaks, w of input i of the transaction b.
Wit(b, i, w) ==
  CASE w.len = 0 -> "missing_witness_program_type"
    [] w.ty # 0 -> "unknown_witness_program_type"
    [] w.len # WLen -> "malformed"
    [] w.key # b[1][i].c -> "program_mismatch"
    [] w.key < 0 -> "invalid_public_key"
    [] w.by # w.key \/ w.over # b -> "invalid_signature"
    [] OTHER -> ""

\* The first rule a transaction breaks: its name and where it is broken.
Verdict(ins, outs, wits) ==
  LET dup == { i \in 1..Len(ins) : \E j \in 1..(i - 1) : Op(ins[j]) = Op(ins[i]) }
      zin == { i \in 1..Len(ins) : ins[i].v = Zero }
      zout == { i \in 1..Len(outs) : outs[i].v = Zero }
      b == Body(ins, outs)
      bw == { i \in 1..Len(wits) : Wit(b, i, wits[i]) # "" }
  IN CASE ins = << >> -> <<"no_inputs", -1>>
       [] outs = << >> -> <<"no_outputs", -1>>
       [] Len(wits) # Len(ins) -> <<"missing_witness", -1>>
       [] dup # {} -> <<"duplicate", First(dup) - 1>>
       [] zin # {} -> <<"zero_input", First(zin) - 1>>
       [] zout # {} -> <<"zero_output", First(zout) - 1>>
       [] Overflows(ins) \/ Overflows(outs) -> <<"value_overflow", -1>>
       [] Sum(ins) # Sum(outs) -> <<"asymmetric_values", -1>>
       [] bw # {} -> <<Wit(b, First(bw), wits[First(bw)]), First(bw) - 1>>
       [] OTHER -> <<"", -1>>

\* An attested transaction: cont is what it is, att a function from the keys
\* of the attestations to [by, over].
Attested(cont, att, known, thr) ==
  /\ Cardinality(DOMAIN att) >= thr
  /\ \A k \in DOMAIN att : k \in known /\ k > 0 /\ att[k].by = k /\ att[k].over = cont
=============================================================================
