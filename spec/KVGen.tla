------------------------------- MODULE KVGen -------------------------------
(* Random walks of KVMC, as scripts for the harness *)
EXTENDS KVMC, Json
LEN == 60
VARIABLE hist
GenInit == Init /\ hist = <<>>
Op(L) == [x \in DOMAIN L \ {"post", "panic", "stable", "got", "ok", "valid"} |-> L[x]]
GenStep == Len(hist) < LEN /\ Next /\ hist' = Append(hist, Op(last'))
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
