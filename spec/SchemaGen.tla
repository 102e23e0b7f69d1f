----------------------------- MODULE SchemaGen -----------------------------
(* Random cases of SchemaMC, most of them acceptable or nearly so *)
EXTENDS SchemaMC, Json, Randomization
VARIABLE n
GenInit == Init /\ n = 0
Some(k, S) == RandomSubset(k, S)
GenStep == /\ n < 40
           /\ \E fs \in Some(1, Fields), p \in Some(1, Pks), k \in Some(1, SksS) :
                 \E s \in (IF p = "" THEN {TRUE, FALSE} ELSE {FALSE}) \cup {FALSE} :
                    /\ last' = Case(fs, s, p, k)
                    /\ PrintT(ToJson(<<[op |-> "schema"] @@ last'>>))
           /\ n' = n + 1 /\ UNCHANGED done
GenSpec == GenInit /\ [][GenStep]_<<vars, n>>
=============================================================================
