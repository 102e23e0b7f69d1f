------------------------------- MODULE QueryGen -------------------------------
(* Random walks of QueryMC, as scripts for the harness.                       *)
EXTENDS QueryMC, Json, Randomization
LEN == 60
VARIABLE hist
Num(x) == CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "s0" -> -1 [] OTHER -> 0
NumObj(o) == [k |-> Num(o.k), bad |-> FALSE] @@ (IF "p" \in DOMAIN o THEN [p |-> Num(o.p)] ELSE [f1 |-> Num(o.f1), f2 |-> Num(o.f2), p |-> Num(o.f1)])
NumCrit(c) == [j \in DOMAIN c |-> [c[j] EXCEPT !.v = Num(@)]]
Op(L) == CASE L.op = "register" -> [op |-> L.op, t |-> L.t]
           [] L.op = "build"    -> [op |-> L.op, how |-> "module"]
           [] Mutates(L)        -> [op |-> L.op, t |-> L.t, o |-> NumObj(L.o)]
           [] L.op = "query" /\ L.how = "get" -> [op |-> L.op, how |-> L.how, t |-> L.t, k |-> Num(L.k)]
           [] L.op = "query"    -> [op |-> L.op, how |-> IF L.how = "wrong" THEN "wrong" ELSE L.how, t |-> L.t, k |-> 0, path |-> "get/{g}/{k}"]
           [] L.op = "remote"   -> [op |-> L.op, how |-> L.how, t |-> L.t, k |-> Num(L.k), via |-> L.via, node |-> L.node, verb |-> "get", args |-> 2]
           [] L.op = "http" /\ L.how = "list" -> [op |-> L.op, how |-> L.how, t |-> L.t, crit |-> NumCrit(L.crit), method |-> L.method, height |-> L.height, limits |-> L.limits]
           [] L.op = "http" /\ L.how = "nowhere" -> [op |-> L.op, how |-> L.how, t |-> "", method |-> "GET", height |-> "", limits |-> "", path |-> "/nowhere"]
           [] OTHER             -> [op |-> L.op, how |-> L.how, t |-> L.t, k |-> Num(L.k), method |-> L.method, height |-> L.height, limits |-> L.limits]
Some(k, S) == RandomSubset(IF Cardinality(S) < k THEN Cardinality(S) ELSE k, S)
GenChange == \E t \in DOMAIN Types : \E o \in Some(8, ObjsOf(t)) : \E op \in {"create", "create", "update", "delete"} :
               LET r == Exec(st, op, t, o) IN Emit([op |-> op, t |-> t, o |-> o, err |-> r.err, post |-> r.objs, dig |-> r.objs])
GenInit == Init /\ hist = <<>>
GenStep == /\ Len(hist) < LEN
           /\ IF Len(hist) \in {0, 1, 3} THEN \E t \in DOMAIN Types \ st.reg : Emit([op |-> "register", t |-> t, err |-> ""])
              ELSE IF Len(hist) = 5 THEN Build
              ELSE \E k \in Some(1, 1..6) : CASE k < 3 -> GenChange [] k = 3 -> Query [] k = 4 -> Remote [] OTHER -> IF st.built THEN Http ELSE Query
           /\ hist' = Append(hist, Op(last'))
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
