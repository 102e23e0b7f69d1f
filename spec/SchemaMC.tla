------------------------------ MODULE SchemaMC ------------------------------
(* Registration as it is decided - the definition, then the message, the      *)
(* primary key and each secondary key in turn - and what storing an object    *)
(* needs of its type, for every small type. Bug plants a defect.              *)
EXTENDS Schema, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

Kinds1 == {"string", "bytes", "bool", "int32", "sint64", "double", "enum", "msg", "deepmap"}
          \cup (IF Big THEN {"uint32", "int64", "uint64", "fixed32", "mapmsg", "rec"} ELSE {})
Cards(k) == {"one", "list"} \cup (IF k \in {"string"} THEN {"map", "optional"} ELSE {})
F1 == UNION {{[name |-> "a_key", json |-> "aKey", kind |-> k, card |-> c] : c \in Cards(k)} : k \in Kinds1}
F2 == UNION {{[name |-> "b", json |-> "b", kind |-> k, card |-> c] : c \in Cards(k)} : k \in {"string", "uint64", "float", "mapmsg"}}
Fields == {<<f>> : f \in F1} \cup {<<f, g>> : f \in F1, g \in F2}
Names  == {"aKey", "a_key", "b"}
Pks    == Names \cup {""}
SksS   == {<<>>} \cup {<<n>> : n \in Names} \cup {<<n, m>> : n \in {"aKey", "b"}, m \in Names}

VARIABLES last, done
vars == <<last, done>>

(* the decision, in the order it is made; "" or the reason of the refusal *)
RECURSIVE Sks(_, _)
Sks(c, i) == IF i > Len(c.sks) THEN ""
             ELSE IF Bug # "duplicates" /\ \E j \in 1 .. i - 1 : c.sks[j] = c.sks[i] THEN "duplicate"
             ELSE IF Named(c, c.sks[i]) = {} /\ ~(Bug = "proto-names" /\ \E j \in DOMAIN c.fields : c.fields[j].name = c.sks[i]) THEN "unknown"
             ELSE IF Named(c, c.sks[i]) # {} /\ ~Indexable(c, c.sks[i]) THEN "kind"
             ELSE Sks(c, i + 1)
ShallowMap(c) == \E i \in DOMAIN c.fields : c.fields[i].card = "map" \/ c.fields[i].kind = "mapmsg"
Decide(c) == IF c.single /\ (c.pk # "" \/ c.sks # <<>>) /\ Bug # "singleton-keys" THEN "definition"
             ELSE IF ~c.single /\ c.pk = "" THEN "definition"
             ELSE IF (IF Bug = "shallow-maps" THEN ShallowMap(c) ELSE HasMap(c)) THEN "map"
             ELSE IF HasKind(c) /\ Bug # "any-kind" THEN "kind"
             ELSE IF ~c.single /\ Named(c, c.pk) = {} THEN "unknown"
             ELSE IF ~c.single /\ ~Indexable(c, c.pk) THEN "kind"
             ELSE IF ~c.single /\ Repeated(c, c.pk) /\ Bug # "repeated-key" THEN "repeated"
             ELSE Sks(c, 1)
(* what goes wrong when objects are stored *)
Uses(c) == IF ~c.single /\ Repeated(c, c.pk) THEN "panic"
           ELSE IF \E i \in DOMAIN c.sks : Repeated(c, c.sks[i]) THEN "panic"
           ELSE IF ~Distinct(c.sks) THEN "index entry exists"
           ELSE ""
Case(fs, s, p, k) == [fields |-> fs, single |-> s, pk |-> p, sks |-> k]
Result(c) == LET ok == Decide(c) = ""
             IN  c @@ [panic |-> "", accepted |-> ok, listed |-> ok, again |-> FALSE,
                       usable |-> IF ok /\ Accept(c) THEN Uses(c) ELSE ""]

Init == last = [op |-> "none"] /\ done = FALSE
Next == /\ ~done
        /\ \E fs \in Fields, s \in BOOLEAN, p \in Pks, k \in SksS : last' = Result(Case(fs, s, p, k))
        /\ done' = TRUE
Spec == Init /\ [][Next]_vars
StepHolds == [][Holds(PROP, 0, last') \/ Known(last') # ""]_vars
(* the only types which are accepted and cannot be stored are the known ones *)
Inv == done /\ last.accepted /\ Bug = "none" => Uses(last) = "" \/ Known(last) # ""
=============================================================================
