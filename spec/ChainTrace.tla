----------------------------- MODULE ChainTrace -----------------------------
(* Judges what was recorded from the real code, one step at a time: the     *)
(* observed state after each line is the state before the next one.         *)
EXTENDS Chain, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, st, done, cov
vars == <<i, st, done, cov>>

Count(c, ts) == [x \in DOMAIN c \cup ts |-> (IF x \in DOMAIN c THEN c[x] ELSE 0) + (IF x \in ts THEN 1 ELSE 0)]

Init == i = 0 /\ st = [none |-> TRUE] /\ done = {} /\ cov = [x \in {} |-> 0]

Step == /\ i < Len(Log)
        /\ LET L == Log[i + 1]
           IN  /\ i' = i + 1
               /\ IF Holds(PROP, st, L, done) = TRUE THEN TRUE ELSE PrintT(<<"VIOLATION-AT", i + 1>>)
               /\ st' = IF "post" \in DOMAIN L THEN L.post ELSE st
               /\ done' = IF L.op = "init" THEN {}
                          ELSE IF IsTx(L) /\ Took(st, L) THEN done \cup {L.id} ELSE done
               /\ cov' = Count(cov, Tags(st, L, done))
End  == /\ i = Len(Log) /\ PrintT(<<"JUDGED", i, ToJson(cov)>>) /\ i' = i + 1 /\ UNCHANGED <<st, done, cov>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
