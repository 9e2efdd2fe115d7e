------------------------------- MODULE MCRpc -------------------------------
EXTENDS Rpc
CONSTANTS C, MaxCall, MaxReq, MaxRsp, Mode, Script \* "b": blocking server, "a": asynchronous, "r": raw
VARIABLES cl,    \* clients
          call,  \* [c, id, kind, n, v]: n times returned, v the last value
          req,   \* requests delivered to the server: [k, st] st "later" or "done"
          rep,   \* replies: [c, id, v, q]; v = 0 or 1000 + q, q the delivery it answers
          got,   \* deliveries of replies so far
          gone,  \* clients destroyed
          h
vars == <<cl, call, req, rep, got, gone, h>>
S(x) == ToString(x)
Log == IF Script THEN h ELSE ""

Init == cl = [c \in 1..C |-> Client0] /\ call = << >> /\ req = << >> /\ rep = << >> /\ got = 0 /\ gone = {} /\ h = ""

Call(c, kind) ==
  /\ Len(call) < MaxCall /\ c \notin gone
  /\ LET ok == kind \notin {"f", "g"} IN
     /\ call' = Append(call, [c |-> c, id |-> cl[c].next, kind |-> kind, n |-> IF ok THEN 0 ELSE 1, v |-> 0])
     /\ cl' = [cl EXCEPT ![c] = Start(@, Len(call) + 1, ok)]
  /\ h' = Log \o "call " \o S(c) \o " " \o kind \o ";"
  /\ UNCHANGED <<req, rep, got, gone>>
Sent(k) == call[k].kind \notin {"f", "g"}
Answer(q, k, v) == rep' = Append(rep, [c |-> call[k].c, id |-> call[k].id, v |-> v, q |-> q])
Hows == IF Mode = "b" THEN {"now", "none"} ELSE {"now", "none", "later", "refuse"}
Req(k, how) ==
  /\ Len(req) < MaxReq /\ Sent(k)
  /\ req' = Append(req, [k |-> k, st |-> IF how = "later" THEN "later" ELSE "done"])
  /\ LET q == Len(req) + 1 IN
       CASE how = "later" -> UNCHANGED rep
         [] how = "now" -> Answer(q, k, 1000 + q)
         [] OTHER -> Answer(q, k, 0)
  /\ h' = Log \o "req " \o S(k) \o " " \o how \o ";"
  /\ UNCHANGED <<cl, call, got, gone>>
Done(q, v) ==
  /\ req[q].st = "later"
  /\ req' = [req EXCEPT ![q].st = "done"]
  /\ Answer(q, req[q].k, v)
  /\ h' = Log \o "done " \o S(q) \o " " \o S(IF v = 0 THEN 0 ELSE 1) \o ";"
  /\ UNCHANGED <<cl, call, got, gone>>
Ret(K, v) == call' = [k \in DOMAIN call |-> IF k \in K THEN [call[k] EXCEPT !.n = @ + 1, !.v = v] ELSE call[k]]
Rsp(j) ==
  /\ got < MaxRsp /\ rep[j].c \notin gone
  /\ got' = got + 1
  /\ LET a == Arrive(cl[rep[j].c], rep[j].id) IN cl' = [cl EXCEPT ![rep[j].c] = a.c] /\ Ret(a.k, rep[j].v)
  /\ h' = Log \o "rsp " \o S(j) \o ";"
  /\ UNCHANGED <<req, rep, gone>>
Expire(k) ==
  /\ call[k].kind = "t" /\ call[k].n = 0 /\ call[k].c \notin gone
  /\ cl' = [cl EXCEPT ![call[k].c] = GiveUp(@, k)]
  /\ Ret({k}, 0)
  /\ h' = Log \o "expire " \o S(k) \o ";"
  /\ UNCHANGED <<req, rep, got, gone>>
\* Callbacks that are left are dropped.
Close(c) ==
  /\ c \notin gone
  /\ gone' = gone \cup {c}
  /\ LET K == { cl[c].open[i] : i \in DOMAIN cl[c].open } IN Ret({ k \in K : call[k].kind # "a" }, 0)
  /\ cl' = [cl EXCEPT ![c].open = << >>]
  /\ h' = Log \o "close " \o S(c) \o ";"
  /\ UNCHANGED <<req, rep, got>>
Next == \/ \E c \in 1..C : Close(c) \/ \E kind \in {"s", "t", "a", "f", "g"} : Call(c, kind)
        \/ \E k \in DOMAIN call : Expire(k) \/ \E how \in Hows : Req(k, how)
        \/ \E q \in DOMAIN req : Done(q, 0) \/ Done(q, 1000 + q)
        \/ \E j \in DOMAIN rep : Rsp(j)
Spec == Init /\ [][Next]_vars
View == <<cl, call, req, rep, got, gone>>
Emit == PrintT("H " \o h')
----------------------------------------------------------------------------
Own == \A k \in DOMAIN call : call[k].v # 0 => req[call[k].v - 1000].k = k
Once == \A k \in DOMAIN call : call[k].n <= 1
Returns == \A k \in DOMAIN call : call[k].n = 0 => \/ k \in Rng(cl[call[k].c].open)
                                                   \/ call[k].c \in gone /\ call[k].kind = "a"
ServedOnce == \A i \in DOMAIN rep, j \in DOMAIN rep : rep[i].q = rep[j].q => i = j
Served == \A q \in DOMAIN req : req[q].st = "done" => \E j \in DOMAIN rep : rep[j].q = q
ToSender == \A j \in DOMAIN rep : LET k == req[rep[j].q].k IN rep[j].c = call[k].c /\ rep[j].id = call[k].id
Distinct == \A k \in DOMAIN call, m \in DOMAIN call : call[k].c = call[m].c /\ call[k].id = call[m].id => k = m
=============================================================================
