------------------------------ MODULE AppTrace ------------------------------
(* Judges what was recorded of composed applications. *)
EXTENDS App, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, st, cov
vars == <<i, st, cov>>
Count(c, ts) == [x \in DOMAIN c \cup ts |-> (IF x \in DOMAIN c THEN c[x] ELSE 0) + (IF x \in ts THEN 1 ELSE 0)]
Nothing == [c |-> [mods |-> <<>>, acl |-> <<>>, rules |-> <<>>, decoder |-> TRUE], objs |-> <<>>, roles |-> <<>>, binds |-> <<>>, auth |-> FALSE, inited |-> FALSE]

Init == i = 0 /\ st = Nothing /\ cov = [x \in {} |-> 0]
Step == /\ i < Len(Log)
        /\ LET L == Log[i + 1]
           IN  /\ i' = i + 1
               /\ IF Holds(PROP, st, L) = TRUE THEN TRUE ELSE PrintT(<<"VIOLATION-AT", i + 1>>)
               /\ st' = After(st, L)
               /\ cov' = Count(cov, Tags(st, L))
End  == /\ i = Len(Log) /\ PrintT(<<"JUDGED", i, ToJson(cov)>>) /\ i' = i + 1 /\ UNCHANGED <<st, cov>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
