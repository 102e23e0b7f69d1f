------------------------------ MODULE TypedMC ------------------------------
(* The generator and its clients as they are built: the names, the tables   *)
(* and the calls of the generated code are templates filled in from the     *)
(* declaration; the clients hand everything to one client of all types.     *)
(* Checked exhaustively against what Typed.tla promises. Bug plants a       *)
(* defect.                                                                  *)
EXTENDS Typed, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

(* ---- generating ---- *)
Flds  == {<<>>, <<[json |-> "id", kind |-> "string", rep |-> FALSE]>>, <<[json |-> "id", kind |-> "bytes", rep |-> FALSE]>>,
          <<[json |-> "id", kind |-> "uint64", rep |-> FALSE]>>, <<[json |-> "n", kind |-> "bool", rep |-> FALSE], [json |-> "id", kind |-> "string", rep |-> FALSE]>>}
DMsgs == [name : {"A"}, kind : {"object", "transition", "both", "plain"}, single : BOOLEAN, pk : {"", "id", "ID"}, fields : Flds]
Defs  == [pkg : {"", "p"}, msgs : {<<x>> : x \in DMsgs}
                                  \cup {<<x, [name |-> "B", kind |-> k, single |-> FALSE, pk |-> "id", fields |-> <<[json |-> "id", kind |-> "string", rep |-> FALSE]>>]>> :
                                        x \in IF Big THEN DMsgs ELSE {y \in DMsgs : y.fields = <<>> \/ y.pk = "id"}, k \in {"object", "transition"}}]
(* the generator goes through the messages and stops at the first it cannot do *)
GenMsg(m) ==
    LET named == {j \in DOMAIN m.fields : m.fields[j].json = m.pk}
    IN  IF m.kind = "both" /\ Bug # "both" THEN "error"
        ELSE IF m.kind \notin {"object", "both"} \/ m.single THEN "fine"
        ELSE IF named = {} THEN "error"
        ELSE IF m.fields[CHOOSE j \in named : TRUE].kind \in {"string", "bytes"} THEN "fine"
        ELSE IF Bug = "any-key" THEN "garbage" ELSE "error"
Plain(d) == \A j \in DOMAIN d.msgs : d.msgs[j].kind = "plain"
RECURSIVE GenFrom(_, _)
GenFrom(ms, j) == IF j > Len(ms) THEN "fine"
                  ELSE IF GenMsg(ms[j]) # "fine" THEN GenMsg(ms[j])
                  ELSE GenFrom(ms, j + 1)
GenDef(d) == IF Plain(d) THEN "none" ELSE IF Bug = "first-message" /\ d.msgs[1].kind = "plain" THEN "none" ELSE IF d.pkg = "" /\ Bug # "no-package" THEN "error" ELSE GenFrom(d.msgs, 1)

(* ---- the surface ---- *)
SMsgs == {[name |-> n, go |-> n, ends |-> n = "As", pkg |-> "p", object |-> o, single |-> s, pk |-> IF s \/ ~o THEN "" ELSE "id", sks |-> IF s \/ ~o THEN <<>> ELSE x] :
             n \in {"A", "As"}, o \in BOOLEAN, s \in BOOLEAN, x \in {<<>>, <<"a">>, <<"a", "b">>}}
Made(m) == [group |-> m.pkg, kind |-> IF Bug = "kind-of-go" THEN m.go \o "s" ELSE m.name,
            is |-> IF m.object THEN "object" ELSE "transition", type |-> IF m.object THEN "StateObject" ELSE "StateTransition",
            fresh |-> Bug # "same-object", alone |-> Bug # "same-object",
            sch |-> IF ~m.object THEN <<>>
                    ELSE [single |-> m.single, pk |-> m.pk, sks |-> IF Bug = "first-index" /\ Len(m.sks) > 1 THEN SubSeq(m.sks, 1, 1) ELSE m.sks]]
Named(m) == IF m.object /\ (m.single \/ m.ends) THEN m.go ELSE IF m.object THEN m.go \o "s" ELSE "Exec" \o m.go

(* ---- the clients ---- *)
Types == [T0 |-> [pk |-> "k", single |-> FALSE, sks |-> <<"f1", "f2">>],
          T1 |-> [pk |-> "", single |-> TRUE, sks |-> <<>>],
          T2 |-> [pk |-> "k", single |-> FALSE, sks |-> <<>>]]
Keys  == IF Big THEN {"sa", "sb", "sc", "s0"} ELSE {"sa", "sb", "s0"}
Vals  == {"s0", "sa"}
ObjsOf(t) == IF t = "T0" THEN {[k |-> k, f1 |-> a, f2 |-> b, _t |-> t, _v |-> v] : k \in Keys, a \in Vals, b \in Vals, v \in {"x"}}
                              \cup {[k |-> k, f1 |-> "s0", f2 |-> "s0", _t |-> t, _v |-> "sbad"] : k \in Keys}
             ELSE IF t = "T1" THEN {[_t |-> t, _v |-> v] : v \in {"x", "y"}}
             ELSE {[k |-> k, _t |-> t, _v |-> v] : k \in Keys, v \in {"x", "y"}}

VARIABLES st, last
vars == <<st, last>>
NoObjs == [t \in DOMAIN Types |-> <<>>]
S0     == [types |-> Types, reg |-> DOMAIN Types, objs |-> NoObjs, dig |-> NoObjs]

Emit(L, objs) == LET M == [panic |-> "", post |-> objs, dig |-> objs] @@ L IN last' = M /\ st' = TypedAfter(st, M)

(* the client of one type, and what it hands on *)
To(t) == IF Bug = "other-type" /\ t = "T2" THEN "T0" ELSE t
Call(op, t, o, upsert) ==
    LET u == upsert /\ Bug # "drops-options"
        r == Exec(st, op, t, o)
    IN  IF To(t) # t THEN [err |-> "other", objs |-> st.objs]
        ELSE IF Bug = "update-creates" /\ op = "update" /\ r.err = "notfound" THEN Exec(st, "create", t, o)
        ELSE IF u /\ r.err = "notfound" THEN Exec(st, "create", t, o) ELSE r
Mutate == \E t \in DOMAIN Types : \E o \in ObjsOf(t) : \E op \in {"create", "update", "delete"} : \E opts \in BOOLEAN :
            LET up == op = "update" /\ opts
                r  == Call(op, t, o, up)
            IN  Emit([op |-> op, t |-> t, o |-> o, upsert |-> up, options |-> opts, ran |-> IF opts /\ Bug # "drops-options" THEN 2 ELSE 0,
                      err |-> IF Bug = "swallows" THEN "" ELSE r.err], r.objs)
Get    == \E t \in DOMAIN Types : \E k \in (IF Types[t].single THEN {"unique"} ELSE Keys) : \E h \in {"0", "3"} :
            LET k2 == IF Bug = "folds-keys" /\ k = "sb" THEN "sa" ELSE k
                at == IF Bug = "drops-options" THEN "0" ELSE h
                is == st.objs[t]
                found == at = "0" /\ k2 \in DOMAIN is
            IN  Emit([op |-> "get", t |-> t, k |-> k, height |-> h, at |-> <<at>>, got |-> IF found THEN is[k2] ELSE <<>>,
                      err |-> IF at # "0" THEN "told" ELSE IF found THEN "" ELSE IF k = "s0" THEN "other" ELSE "notfound",
                      nothing |-> ~found /\ Bug # "empty-found"], st.objs)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Crits == {<<>>} \cup {<<[f |-> f, v |-> v, mode |-> "i"]>> : f \in {"f1", "f2"}, v \in Vals}
         \cup {<<[f |-> "f1", v |-> v, mode |-> "i"], [f |-> "f2", v |-> w, mode |-> "i"]>> : v \in Vals, w \in Vals}
List   == \E t \in {x \in DOMAIN Types : ~Types[x].single} : \E c \in (IF t = "T0" THEN Crits ELSE {<<>>}) : \E h \in {"0", "3"} :
            LET at == IF Bug = "drops-options" THEN "0" ELSE h
                c2 == IF Bug = "first-criterion" /\ Len(c) > 1 THEN SubSeq(c, 1, 1) ELSE c
                ks == SeqOf(Matching(st, [t |-> t, crit |-> c2]))
                ok == at = "0" /\ c # <<>> /\ ks # <<>>
            IN  Emit([op |-> "list", t |-> t, crit |-> c, height |-> h, start |-> "0", end |-> "0", at |-> <<at, "0", "0">>, err |-> IF at # "0" THEN "told" ELSE IF ok THEN "" ELSE "other",
                      seen |-> IF ~ok THEN <<>> ELSE [j \in DOMAIN ks |-> st.objs[t][IF Bug = "same-object" THEN ks[1] ELSE ks[j]]]], st.objs)
Send   == \E f \in BOOLEAN :
            Emit([op |-> "exec", t |-> "S0", v |-> "x", fails |-> f, err |-> IF f /\ Bug # "swallows" THEN "told" ELSE "",
                  sent |-> IF Bug = "sends-empty" THEN <<[t |-> "S0", v |-> ""]>> ELSE <<[t |-> "S0", v |-> "x"]>>], st.objs)

Init == st = S0 /\ last = [op |-> "init"]
Next == Mutate \/ Get \/ List \/ Send
Spec == Init /\ [][Next]_vars
View == st
Bound == Cardinality(DOMAIN st.objs.T0) <= (IF Big THEN 3 ELSE 2) /\ (Cardinality(DOMAIN st.objs.T2) <= 1)
StepHolds == [][TypedHolds(st, last')]_vars
Inv == Bug # "none" \/ st.reg = DOMAIN Types

ASSUME \A d \in Defs : LET r == GenDef(d) IN Generates([def |-> d, accepted |-> r # "error", files |-> IF r = "none" THEN 0 ELSE 1, compiled |-> r = "fine"])
ASSUME \A m1 \in SMsgs : \A m2 \in SMsgs :
         m1.go # m2.go /\ Named(m1) # Named(m2) =>
         Surface([msgs |-> <<m1 @@ [panic |-> "", api |-> Made(m1)], m2 @@ [panic |-> "", api |-> Made(m2)]>>, methods |-> <<Named(m1), Named(m2)>>])
=============================================================================
