---------------------------- MODULE TraceWallet ----------------------------
EXTENDS Wallet, TraceLib
VARIABLES l, bad, s, T, files
vars == <<l, bad, s, T, files>>
Rng(q) == { q[i] : i \in DOMAIN q }
Ok(x) == [b |-> "", s |-> x]
No(b) == [b |-> b, s |-> s]
Seed(e) == IF e.ok # (e.ro \/ (s.keys = {} /\ e.b > e.a)) THEN No("seed")
           ELSE IF ~e.ok THEN Ok(s)
           ELSE Ok([s EXCEPT !.seeds = e.a..(e.b - 1), !.sv = e.v, !.so = ~e.ro])
Refused(e) ==
  CASE e.k = "send" -> Balance(T, s) < e.v
    [] e.k = "fan" -> Balance(T, s) < e.n * e.v
    [] e.k = "multi" -> Count(s) < e.n \/ TooLittle(T, s, e.n, e.v)
Right(e, t) ==
  CASE e.k = "send" -> Pays(T, s, t, 1, e.v, e.p)
    [] e.k = "fan" -> Pays(T, s, t, e.n, e.v, e.p)
    [] e.k = "multi" -> Spreads(T, s, t, e.n, e.v, e.p)
Made(e, After(_, _)) ==
  IF e.t = 0 THEN IF Refused(e) THEN Ok(s) ELSE No("refused")
  ELSE IF T[e.t].nin # Cardinality(T[e.t].ins) THEN No("input-twice")
  ELSE IF ~(T[e.t].ins \subseteq All(s)) THEN No("not-spendable")
  ELSE IF Total(T, e.t) # Sum(T, s, T[e.t].ins) THEN No("unbalanced")
  ELSE IF ~Right(e, e.t) THEN No("outputs")
  ELSE IF ~e.valid /\ \A c \in T[e.t].ins : IF c[1] = 0 THEN s.so ELSE T[c[1]].outs[c[2] + 1][2] \in s.keys THEN No("invalid")
  ELSE Ok(After(s, e.t))
Par(e) ==
  LET m == Rng(e.made)
      ins == UNION { T[t].ins : t \in m }
      pool == All(s) \cup UNION { Own(T, s, t) : t \in Rng(e.conf) }
  IN IF Cardinality(m) # Len(e.made) \/ MapThenSumSet(LAMBDA t : T[t].nin, m) # Cardinality(ins) THEN No("input-twice")
     ELSE IF ~(ins \subseteq pool) THEN No("not-spendable")
     ELSE IF \E t \in m : Total(T, t) # Sum(T, s, T[t].ins) THEN No("unbalanced")
     ELSE IF \E t \in m : \E i \in DOMAIN T[t].outs : ~(T[t].outs[i][2] \in s.keys \cup {100001}) THEN No("outputs")
     ELSE Ok([s EXCEPT !.avail = (pool \ { <<0, i>> : i \in s.seeds }) \ ins,
                       !.seeds = @ \ { c[2] : c \in { x \in ins : x[1] = 0 } }])
TakeOf(a, t) == Take(a, T[t].ins)
Answer(e, a) == IF e.a = "confirmed" THEN Settle(T, a, e.t) ELSE a
RegisterOf(a, t) == Register(T, a, t)
Step(e) ==
  CASE e.ev = "key" -> Ok([s EXCEPT !.keys = @ \cup {e.k}])
    [] e.ev = "keys" -> Ok([s EXCEPT !.keys = @ \cup (e.a..e.b)])
    [] e.ev = "tx" -> IF e.right THEN Ok(s) ELSE No("coin-changed")
    [] e.ev = "mint" -> IF T[e.t].nin = 0 /\ Len(T[e.t].outs) = e.n /\ \A i \in DOMAIN T[e.t].outs : T[e.t].outs[i][1] = e.v /\ T[e.t].outs[i][2] \in s.keys
                        THEN Ok(s) ELSE No("minted")
    [] e.ev = "made" -> Made(e, TakeOf)
    [] e.ev = "conf" -> Ok(Confirm(T, s, e.t))
    [] e.ev = "credit" -> Ok(Credit(s, Rng(e.cs)))
    [] e.ev = "save" -> Ok(s)
    [] e.ev = "load" -> IF e.f \in DOMAIN files THEN Ok([s EXCEPT !.keys = files[e.f].keys, !.avail = files[e.f].avail, !.so = files[e.f].so]) ELSE Ok(s)
    [] e.ev = "new" -> Ok([Init0 EXCEPT !.sv = s.sv, !.so = FALSE])
    [] e.ev = "seed" -> Seed(e)
    [] e.ev = "spendable" -> IF e.ok = (e.k \in s.keys) THEN Ok(s) ELSE No("spendable")
    [] e.ev = "export" -> IF e.ok /\ Len(e.cs) = Cardinality(Rng(e.cs)) /\ Rng(e.cs) = { <<e.t, i>> : i \in { j \in 0..(Len(T[e.t].outs) - 1) : T[e.t].outs[j + 1][2] = e.k } }
                          THEN Ok(s) ELSE No("export")
    [] e.ev = "par" -> Par(e)
    [] e.ev = "st" -> IF e.bal # Balance(T, s) THEN No("balance") ELSE IF e.cnt # Count(s) THEN No("count") ELSE Ok(s)
    \* the client
    [] e.ev = "register" -> Made(e, RegisterOf)
    [] e.ev = "sent" -> Ok(Answer(e, Send(s, e.t)))
    [] e.ev = "ret" -> IF e.ok = e.exp THEN Ok(s) ELSE No("told")
    [] e.ev = "import" -> Ok(Import(T, s, e.c))
    [] e.ev = "confirm" -> IF e.ok = Known(s, e.t) THEN Ok(Settle(T, s, e.t)) ELSE No("confirm")
    [] e.ev = "abandon" -> IF e.ok = (e.t \in s.pend) THEN Ok(Abandon(T, s, e.t)) ELSE No("abandon")
    [] e.ev = "sync" ->
         LET asked == { e.res[i].t : i \in DOMAIN e.res }
             yes == { e.res[i].t : i \in { j \in DOMAIN e.res : e.res[j].a = "yes" } }
             none == \E i \in DOMAIN e.res : e.res[i].a = "none"
         IN IF asked # s.pend \cup { c[1] : c \in s.pin } THEN No("asked")
            ELSE IF e.ok # (IF e.two THEN ~none ELSE yes = asked) THEN No("sync")
            ELSE Ok(SettleAll(T, s, yes))
    [] e.ev = "restart" -> Ok(s)
    [] e.ev = "chk" -> IF e.ok = (\E t \in s.pend : e.c \in T[t].ins) THEN Ok(s) ELSE No("check-pending")
    [] e.ev = "cst" -> IF e.bal # Balance(T, s) THEN No("balance")
                       ELSE IF e.cnt # Count(s) THEN No("count")
                       ELSE IF e.npend # Cardinality(s.pend) THEN No("pending")
                       ELSE IF e.npin # Cardinality(s.pin) THEN No("pending-inputs")
                       ELSE IF Len(e.saved) # Cardinality(Rng(e.saved)) \/ Rng(e.saved) # All(s) THEN No("saved")
                       ELSE Ok(s)
    [] OTHER -> No(e.ev)

Init == l = 1 /\ bad = "" /\ s = Init0 /\ T = << >> /\ files = << >>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN bad' = "" /\ s' = Init0 /\ T' = << >> /\ files' = << >>
     ELSE IF bad # "" THEN UNCHANGED <<bad, s, T, files>>
     ELSE LET r == Step(e) IN
          /\ bad' = r.b /\ s' = r.s
          /\ T' = IF e.ev = "tx" THEN Fn(T, e.t, [ins |-> Rng(e.ins), nin |-> Len(e.ins), outs |-> e.outs]) ELSE T
          /\ files' = IF e.ev = "save" THEN Fn(files, e.f, [keys |-> s.keys, avail |-> s.avail, so |-> s.so]) ELSE files
          /\ (r.b # "" => Report(l, r.b, 0))
Spec == Init /\ [][Next]_vars
=============================================================================
