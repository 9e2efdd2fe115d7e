-------------------------------- MODULE Rpc --------------------------------
(* Remote calls.  A client numbers its requests and keeps the calls that are
   open by number; a message that arrives closes the call of its number, if it
   is open, with its value.  A server hands each request to its handler and
   sends what the handler says, under the number and to the sender of the
   request.  The network may lose, repeat and reorder messages.

   A client is a record: next (number of the next request), open (function from
   number to call).  Values are natural numbers; 0 is a failure.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == { s[i] : i \in DOMAIN s }
Client0 == [next |-> 0, open |-> << >>]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
\* Call k: the number is taken whether or not the request can be sent.
Start(c, k, sent) == [next |-> c.next + 1, open |-> IF sent THEN (c.next :> k) @@ c.open ELSE c.open]
\* A response with number id: the client and the calls that return.
Arrive(c, id) == IF id \in DOMAIN c.open THEN [c |-> [c EXCEPT !.open = Without(@, id)], k |-> {c.open[id]}]
                 ELSE [c |-> c, k |-> {}]
\* Call k gives up.
GiveUp(c, k) == [c EXCEPT !.open = [i \in { j \in DOMAIN @ : @[j] # k } |-> @[i]]]
=============================================================================
