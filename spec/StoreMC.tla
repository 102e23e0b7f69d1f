------------------------------- MODULE StoreMC -------------------------------
(* The store as it is built - objects in one place, an entry per object and  *)
(* secondary key in another, and the list of entries of each object - checked *)
(* exhaustively against what Store.tla promises. Bug plants a defect.        *)
EXTENDS Store, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

Types == [T0 |-> [pk |-> "k", single |-> FALSE, sks |-> <<"f1", "f2">>],
          T1 |-> [pk |-> "k", single |-> FALSE, sks |-> <<>>],
          T2 |-> [pk |-> "", single |-> TRUE, sks |-> <<>>]]
Keys  == IF Big THEN {"0", "1", "2", "s0"} ELSE {"0", "1", "s0"}
Vals  == {"0", "1"}
Objs0 == {[k |-> k, f1 |-> a, f2 |-> b, _unknown |-> u] : k \in Keys, a \in Vals, b \in Vals, u \in {FALSE}}
         \cup {[k |-> k, f1 |-> "0", f2 |-> "0", _unknown |-> TRUE] : k \in Keys}
ObjsOf(t) == IF t = "T0" THEN Objs0 ELSE {[k |-> k, p |-> a] : k \in Keys, a \in Vals}

VARIABLES reg, objs, ents, lists, abs, last
vars == <<reg, objs, ents, lists, abs, last>>

Ix(t, o)    == {<<t, f, o[f], KeyOf(Types[t], o)>> : f \in Rng(Types[t].sks)}
NoObjs      == [t \in DOMAIN Types |-> <<>>]
Stamp       == [objs |-> objs, ents |-> ents, lists |-> lists]

(* the outcome of the steps of one call *)
Try(op, t, o) ==
    LET k  == KeyOf(Types[t], o)
        is == objs[t]
        pk == <<t, k>>
        same(e) == [err |-> e, objs |-> objs, ents |-> ents, lists |-> lists]
        puts == [objs EXCEPT ![t] = Put(is, k, o)]
        old  == IF pk \in DOMAIN lists THEN lists[pk] ELSE {}
    IN  IF t \notin reg \/ NoKey(Types[t], o) THEN same("other")
        ELSE CASE op = "create" ->
                    IF k \in DOMAIN is /\ Bug # "create-overwrites" THEN same("exists")
                    ELSE IF Broken(o) THEN (IF Bug = "half-create" THEN [same("other") EXCEPT !.ents = @ \cup Ix(t, o)] ELSE same("other"))
                    ELSE [err |-> "", objs |-> puts, ents |-> ents \cup Ix(t, o), lists |-> Put(lists, pk, Ix(t, o))]
               [] op = "update" ->
                    IF k \notin DOMAIN is /\ Bug # "update-creates" THEN same(IF Bug = "update-silent" THEN "" ELSE "notfound")
                    ELSE IF Broken(o) THEN same("other")
                    ELSE [err |-> "", objs |-> puts, lists |-> Put(lists, pk, Ix(t, o)),
                          ents |-> (IF Bug = "stale-index" THEN ents ELSE ents \ old) \cup Ix(t, o)]
               [] op = "delete" ->
                    IF k \notin DOMAIN is THEN same("notfound")
                    ELSE [err |-> "", objs |-> [objs EXCEPT ![t] = Drop(is, k)], lists |-> lists,
                          ents |-> IF Bug = "delete-keeps-index" THEN ents ELSE ents \ old]

Entry(t, c, k) == <<t, c.f, c.v, k>> \in ents
Found(t, crit) == {k \in Keys : IF Bug = "any-of" THEN \E j \in DOMAIN crit : Entry(t, crit[j], k)
                                ELSE \A j \in DOMAIN crit : Entry(t, crit[j], k)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Fetch(t, k) == IF k \in DOMAIN objs[t] THEN objs[t][k] ELSE [gone |-> "notfound"]

Emit(L, n) == LET M == [panic |-> "", post |-> n.objs, dig |-> [objs |-> n.objs, ents |-> n.ents, lists |-> n.lists]] @@ L
              IN  /\ objs' = n.objs /\ ents' = n.ents /\ lists' = n.lists /\ last' = M /\ abs' = After(abs, M)
                  /\ reg' = IF L.op = "register" THEN reg \cup {L.t} ELSE reg
Now == [objs |-> objs, ents |-> ents, lists |-> lists]

Crits == {<<>>, <<[f |-> "zz", v |-> "0", mode |-> "i"]>>} \cup {<<[f |-> f, v |-> v, mode |-> "i"]>> : f \in {"f1", "f2"}, v \in Vals}
         \cup {<<[f |-> "f1", v |-> v, mode |-> "i"], [f |-> "f2", v |-> w, mode |-> "s"]>> : v \in Vals, w \in Vals}

Register == \E t \in DOMAIN Types : Emit([op |-> "register", t |-> t, err |-> IF t \in reg THEN "other" ELSE ""], Now)
Change   == \E t \in DOMAIN Types : \E o \in ObjsOf(t) : \E op \in {"create", "update", "delete"} :
               LET r == Try(op, t, o) IN Emit([op |-> op, t |-> t, o |-> o, err |-> r.err], r)
Get      == \E t \in DOMAIN Types : \E k \in (IF Types[t].single THEN {"unique"} ELSE Keys) :
               Emit([op |-> "get", t |-> t, k |-> k, got |-> IF k \in DOMAIN objs[t] THEN objs[t][k] ELSE <<>>,
                     err |-> IF t \notin reg \/ k = "s0" THEN "other" ELSE IF k \in DOMAIN objs[t] THEN "" ELSE "notfound"], Now)
Ask      == \E t \in DOMAIN Types : \E c \in Crits :
               LET ok == t \in reg /\ c # <<>> /\ \A j \in DOMAIN c : c[j].f \in Rng(Types[t].sks)
                   ks == SeqOf(Found(t, c))
               IN  Emit([op |-> "list", t |-> t, crit |-> c, err |-> IF ~ok \/ ks = <<>> THEN "other" ELSE "",
                         seen |-> IF ~ok THEN <<>> ELSE [j \in DOMAIN ks |-> Fetch(t, ks[j])]], Now)

Init == /\ reg = {} /\ objs = NoObjs /\ ents = {} /\ lists = [x \in {} |-> {}]
        /\ abs = [types |-> Types, reg |-> {}, objs |-> NoObjs, dig |-> Stamp] /\ last = [op |-> "init"]
Next == Register \/ Change \/ Get \/ Ask
Spec == Init /\ [][Next]_vars
(* all types are registered early, or there would be little else *)
View == <<reg, objs, ents, lists>>
Bound == Cardinality(DOMAIN objs.T1) <= (IF Big THEN 1 ELSE 0) \/ Cardinality(DOMAIN objs.T0) <= 1
StepHolds == [][Holds(PROP, abs, last')]_vars
Inv == Bug # "none" \/
       /\ ents = UNION {Ix("T0", objs.T0[k]) : k \in DOMAIN objs.T0}
       /\ \A k \in DOMAIN objs.T0 : <<"T0", k>> \in DOMAIN lists /\ lists[<<"T0", k>>] = Ix("T0", objs.T0[k])
       /\ abs.objs = objs
=============================================================================
