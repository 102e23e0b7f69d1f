------------------------------- MODULE StoreGen -------------------------------
(* Random walks of StoreMC, as scripts for the harness: keys and values are   *)
(* numbers, which the harness maps to values of the kinds of each trace.      *)
EXTENDS StoreMC, Json, Randomization
LEN == 70
VARIABLE hist
Num(x) == CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "s0" -> -1 [] OTHER -> 0
NumObj(o) == [k |-> Num(o.k), bad |-> "_unknown" \in DOMAIN o /\ o._unknown] @@
             (IF "p" \in DOMAIN o THEN [p |-> Num(o.p)] ELSE [f1 |-> Num(o.f1), f2 |-> Num(o.f2), p |-> Num(o.f1)])
NumCrit(c) == [j \in DOMAIN c |-> [c[j] EXCEPT !.v = Num(@)]]
Op(L) == CASE L.op = "register" -> [op |-> L.op, t |-> L.t]
           [] Mutates(L)        -> [op |-> L.op, t |-> L.t, o |-> NumObj(L.o)]
           [] L.op = "get"      -> [op |-> L.op, t |-> L.t, k |-> Num(L.k)]
           [] L.op = "list"     -> [op |-> L.op, t |-> L.t, crit |-> NumCrit(L.crit)]
Some(k, S) == RandomSubset(IF Cardinality(S) < k THEN Cardinality(S) ELSE k, S)
GenChange == \E t \in DOMAIN Types : \E o \in Some(6, ObjsOf(t)) : \E op \in {"create", "update", "delete"} :
               LET r == Try(op, t, o) IN Emit([op |-> op, t |-> t, o |-> o, err |-> r.err], r)
GenInit == Init /\ hist = <<>>
GenStep == /\ Len(hist) < LEN
           /\ IF Len(hist) \in {1, 2, 4}
              THEN \E t \in DOMAIN Types \ reg : Emit([op |-> "register", t |-> t, err |-> ""], Now)
              ELSE GenChange \/ (\E k \in Some(1, {1, 2, 3}) : k = 1 /\ (Get \/ Ask \/ Register))
           /\ hist' = Append(hist, Op(last'))
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
