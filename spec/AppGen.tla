------------------------------- MODULE AppGen -------------------------------
(* Random behaviours of the applications of AppMC, as scripts. *)
EXTENDS AppMC, Json, Randomization

VARIABLE hist
gvars == <<vars, hist>>

Ladder == UNION {RandomSubset(1, Graphs(i)) : i \in {2, 3, 4}}
GenInit == /\ Init
           /\ hist = <<[op |-> "build", c |-> Comps[k]]>>
Ask_(o) == /\ Do(o) /\ hist' = Append(hist, o) /\ n' = n + 1 /\ k' = k
Some(j, S) == IF Cardinality(S) < j THEN S ELSE RandomSubset(j, S)
Kinds == <<Txs, Txs, Txs, {t \in Txs : \E i \in DOMAIN t.msgs : t.msgs[i] \in Rolish}, Calls_, Others>>
GenStep ==
    \/ n = 0 /\ \E abci \in {TRUE, FALSE} : Ask_([op |-> "genesis", abci |-> abci])
    \/ n > 0 /\ n < 25 /\ s.inited /\ \E i \in Some(2, 1 .. 6) : \E o \in Some(1, Kinds[i]) : Ask_(o)
    \/ n = 25 /\ PrintT(ToJson(hist \o Listed({[op |-> "deps", graph |-> g] : g \in Ladder}))) /\ n' = 26 /\ UNCHANGED <<k, s, last, hist>>
GenSpec == GenInit /\ [][GenStep]_gvars
=============================================================================
