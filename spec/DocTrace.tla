------------------------------ MODULE DocTrace ------------------------------
(* Judges what was recorded of the document of an API.                       *)
EXTENDS Doc, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, cov
vars == <<i, cov>>
Count(c, ts) == [x \in DOMAIN c \cup ts |-> (IF x \in DOMAIN c THEN c[x] ELSE 0) + (IF x \in ts THEN 1 ELSE 0)]

Init == i = 0 /\ cov = [x \in {} |-> 0]
Step == /\ i < Len(Log)
        /\ LET L == Log[i + 1]
           IN  /\ i' = i + 1
               /\ IF Holds(PROP, 0, L) = TRUE THEN TRUE
                  ELSE PrintT(<<"VIOLATION-AT", i + 1>>)
               /\ cov' = Count(cov, Tags(0, L))
End  == /\ i = Len(Log) /\ PrintT(<<"JUDGED", i, ToJson(cov)>>) /\ i' = i + 1 /\ UNCHANGED cov
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
