------------------------------- MODULE TypedGen -------------------------------
(* Random walks of TypedMC, as scripts for the harness, which does them with  *)
(* the clients generated for just these types.                               *)
EXTENDS TypedMC, Json, Randomization
LEN == 60
VARIABLE hist
Str(x) == CASE x = "s0" -> "" [] x = "sa" -> "a" [] x = "sb" -> "b" [] x = "sc" -> "c" [] OTHER -> x
StrObj(o) == [f \in DOMAIN o \ {"_t"} |-> IF f = "_v" THEN "" ELSE Str(o[f])]
Flat(o) == LET x == StrObj(o) IN [f \in (DOMAIN x \ {"_v"}) \cup {"p"} |-> IF f = "p" THEN o._v ELSE x[f]]
Op(L) == CASE Mutates(L)     -> [op |-> L.op, t |-> L.t, o |-> Flat(L.o), upsert |-> L.options]
           [] L.op = "get"   -> [op |-> L.op, t |-> L.t, k |-> Str(L.k), height |-> IF L.height = "0" THEN 0 ELSE 3]
           [] L.op = "list"  -> [op |-> L.op, t |-> L.t, height |-> IF L.height = "0" THEN 0 ELSE 3, crit |-> [j \in DOMAIN L.crit |-> [f |-> L.crit[j].f, v |-> Str(L.crit[j].v)]]]
           [] L.op = "exec"  -> [op |-> L.op, v |-> L.v, fails |-> L.fails]
GenInit == Init /\ hist = <<>>
GenStep == Len(hist) < LEN /\ Next /\ hist' = Append(hist, Op(last'))
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
