------------------------------ MODULE QueryTrace ------------------------------
(* Judges what was recorded of the questions asked from outside.           **)
EXTENDS Query, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, st, cov
vars == <<i, st, cov>>
Count(c, ts) == [x \in DOMAIN c \cup ts |-> (IF x \in DOMAIN c THEN c[x] ELSE 0) + (IF x \in ts THEN 1 ELSE 0)]

Init == i = 0 /\ st = [none |-> TRUE] /\ cov = [x \in {} |-> 0]
Step == /\ i < Len(Log)
        /\ LET L == Log[i + 1]
           IN  /\ i' = i + 1
               /\ IF QHolds(PROP, st, L) = TRUE THEN TRUE ELSE PrintT(<<"VIOLATION-AT", i + 1>>)
               /\ st' = QAfter(st, L)
               /\ cov' = Count(cov, QTags(st, L))
End  == /\ i = Len(Log) /\ PrintT(<<"JUDGED", i, ToJson(cov)>>) /\ i' = i + 1 /\ UNCHANGED <<st, cov>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
