------------------------------- MODULE DocMC -------------------------------
(* The document as it is put together - the messages the served objects need, *)
(* the files these are in, a component for each of them found in the files,   *)
(* and the operations - and objects as they are written, for every small      *)
(* program: messages in files, some in others. Bug plants a defect.           *)
EXTENDS Doc, IOUtils, SequencesExt

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

(* ---- programs: [pkgs, msgs]; a message is [file, name, parent, serve, fields] *)
F(n, j, k, c, r, w) == [name |-> n, json |-> j, kind |-> k, card |-> c, ref |-> r, wk |-> w]
Cards == {"one", "list"}
Plain == {F("a_b", "aB", k, c, 0, "") : k \in {"string", "int64", "enum", "int32"}, c \in Cards}
Wk    == {F("w", "w", "msg", c, 0, Pb(n)) : n \in {"Timestamp", "Any"}, c \in Cards}
Refs(N) == {F("r", "r", "msg", c, n, "") : n \in N, c \in Cards}
(* the first message, of file 1, and others in the same or another file *)
Some1(N) == {<<>>} \cup {<<f>> : f \in Plain \cup Wk \cup Refs(N)} \cup (IF Big THEN {<<f, g>> : f \in Plain, g \in Refs(N) \cup Wk} ELSE {})
Serves == {"no", "single", "keyed"}
M1 == {[file |-> 1, name |-> "M1", parent |-> 0, serve |-> s, fields |-> fs] : s \in Serves, fs \in Some1({1, 2})}
M2 == {[file |-> 1, name |-> "M2", parent |-> 0, serve |-> s, fields |-> fs] : s \in Serves, fs \in Some1({1, 2})}
      \cup {[file |-> 2, name |-> "M2", parent |-> 0, serve |-> s, fields |-> fs] : s \in Serves, fs \in Some1({1, 2})}
      \cup {[file |-> 1, name |-> "In", parent |-> 1, serve |-> "no", fields |-> fs] : fs \in Some1({1, 2})}
Sound(c) == \A i \in DOMAIN c.msgs : \A j \in DOMAIN c.msgs[i].fields :
               LET f == c.msgs[i].fields[j] IN f.ref # 0 => c.msgs[f.ref].file <= c.msgs[i].file
Case(ps, ms) == [pkgs |-> ps, msgs |-> ms]
Cases == {c \in {Case(<<"a", "b">>, <<m, n>>) : m \in M1, n \in M2} : Sound(c)}

(* ---- what of them objects are made *)
RECURSIVE Full(_, _)
Full(c, i) == IF c.msgs[i].parent = 0 THEN c.pkgs[c.msgs[i].file] \o "." \o c.msgs[i].name
              ELSE Full(c, c.msgs[i].parent) \o "." \o c.msgs[i].name
Key == F("the_key", "theKey", "string", "one", 0, "")
FieldsOf(c, i) == (IF c.msgs[i].serve = "keyed" THEN <<Key>> ELSE <<>>) \o c.msgs[i].fields
View(c, f) == [json |-> f.json, kind |-> f.kind, card |-> f.card, ref |-> IF f.wk # "" THEN f.wk ELSE IF f.ref # 0 THEN Full(c, f.ref) ELSE ""]
Msg(c, i) == [full |-> Full(c, i), inner |-> c.msgs[i].parent # 0, fields |-> [j \in DOMAIN FieldsOf(c, i) |-> View(c, FieldsOf(c, i)[j])]]
AnyMsg == [full |-> Pb("Any"), inner |-> FALSE, fields |-> <<[json |-> "typeUrl", kind |-> "string", card |-> "one", ref |-> ""]>>]
Msgs(c) == [i \in DOMAIN c.msgs |-> Msg(c, i)] \o <<AnyMsg>>
Num(i) == IF i = 1 THEN "1" ELSE IF i = 2 THEN "2" ELSE "3"
ServedOf(c) == {i \in DOMAIN c.msgs : c.msgs[i].serve # "no"}
Served(c) == [j \in 1 .. Cardinality(ServedOf(c)) |->
                LET i == SetToSortSeq(ServedOf(c), <)[j]
                    s == c.msgs[i].serve = "single"
                    p == "/g/k" \o Num(i)
                IN  [full |-> Full(c, i), single |-> s, pk |-> IF s THEN "" ELSE "theKey", item |-> IF s THEN p ELSE p \o "/{theKey}", list |-> IF s THEN "" ELSE p \o "s"]]
Program(c) == [op |-> "doc", msgs |-> Msgs(c), served |-> Served(c)]

(* ---- the document, as the code puts it together *)
ListName(n) == "dynamic." \o n \o "List"
RefName(c, n) == IF Bug = "drops-parent" /\ \E i \in DOMAIN c.msgs : c.msgs[i].parent # 0 /\ Full(c, i) = n
                 THEN LET i == CHOOSE i \in DOMAIN c.msgs : Full(c, i) = n IN c.pkgs[c.msgs[i].file] \o "." \o c.msgs[i].name
                 ELSE n
CodeOf(f) == IF Bug = "integers" /\ f.kind \in {"int64", "enum"} THEN [t |-> "integer", ref |-> ""]
             ELSE IF Bug = "timestamps-in-lists" /\ f.card = "list" /\ f.ref \in DOMAIN WellKnown THEN [t |-> "ref", ref |-> f.ref]
             ELSE Of(f)
CodeShape(c, f) == LET b == CodeOf(f)
                       n == IF b.ref = "" THEN "" ELSE RefName(c, b.ref)
                   IN  IF f.card = "list" /\ Bug # "one-of-a-list" THEN [t |-> "array", ref |-> "", it |-> b.t, iref |-> n] ELSE [t |-> b.t, ref |-> n, it |-> "", iref |-> ""]
PropName(c, i, j) == IF Bug = "proto-names" THEN FieldsOf(c, i)[j].name ELSE FieldsOf(c, i)[j].json
Component(c, i) == [name |-> Full(c, i), props |-> [j \in DOMAIN FieldsOf(c, i) |-> [json |-> PropName(c, i, j), s |-> CodeShape(c, View(c, FieldsOf(c, i)[j]))]]]
AnyComp == [name |-> Pb("Any"), props |-> <<>>]
ListComp(c, i) == [name |-> ListName(Full(c, i)), props |-> <<[json |-> "list", s |-> ListOf(RefName(c, Full(c, i)))]>>]
(* the lists which get a file: all of them, or the first of each file *)
Listed(c) == {i \in ServedOf(c) : c.msgs[i].serve = "keyed" /\ (Bug = "first-list" => ~\E j \in ServedOf(c) : j < i /\ c.msgs[j].serve = "keyed" /\ c.msgs[j].file = c.msgs[i].file)}
Required(c) == LET P == Program(c)
                   D == {P.served[i].full : i \in DOMAIN P.served}
               IN  IF Bug = "shallow" THEN D \cup UNION {RefsOf(Type(P, n)) : n \in D} ELSE Reach(P, D)
CompsOf(c) == {i \in DOMAIN c.msgs : Full(c, i) \in Required(c) /\ (Bug = "top-level" => c.msgs[i].parent = 0)}
Seq2(S) == SetToSortSeq(S, <)
Schemas(c) == [j \in DOMAIN Seq2(CompsOf(c)) |-> Component(c, Seq2(CompsOf(c))[j])]
              \o (IF Pb("Any") \in Required(c) THEN <<AnyComp>> ELSE <<>>)
              \o [j \in DOMAIN Seq2(Listed(c)) |-> ListComp(c, Seq2(Listed(c))[j])]
Param(n, w) == [name |-> n, in |-> w, required |-> w = "path"]
Paths(c) == LET S == Served(c)
                one(o) == [path |-> o.item, methods |-> <<"GET">>, id |-> "get." \o o.item, s |-> RefTo(o.full),
                           params |-> IF o.single \/ Bug = "no-parameter" THEN <<>> ELSE <<Param(o.pk, "path")>>]
                many(o) == [path |-> o.list, methods |-> <<"GET">>, id |-> "list." \o o.item, s |-> RefTo(IF Bug = "list-is-object" THEN o.full ELSE ListName(o.full)),
                            params |-> <<Param("selectField", "query"), Param("start", "query"), Param("end", "query")>>]
                lists == SelectSeq(S, LAMBDA o : ~o.single)
            IN  [i \in DOMAIN S |-> one(S[i])] \o [i \in DOMAIN lists |-> many(lists[i])]

(* ---- objects as they are written: everything set, up to a depth *)
J(t) == [j |-> t, n |-> <<>>, v |-> <<>>]
RECURSIVE Written(_, _, _), Value(_, _, _)
Value(c, f, d) == IF f.wk = Pb("Any") THEN J("object")
                  ELSE IF f.wk # "" \/ f.kind \in Texts THEN J("string")
                  ELSE IF f.kind \in Integral THEN J("integer")
                  ELSE Written(c, f.ref, d)
Written(c, i, d) == IF d = 0 THEN J("object")
                    ELSE LET fs == FieldsOf(c, i)
                         IN  [j |-> "object", n |-> [k \in DOMAIN fs |-> fs[k].json],
                              v |-> [k \in DOMAIN fs |-> LET x == Value(c, fs[k], d - 1)
                                                         IN  IF fs[k].card = "list" THEN [j |-> "array", n |-> <<>>, v |-> <<x, x>>] ELSE x]]
Answers(c) == LET S == Served(c)
                  T == Seq2(ServedOf(c))
                  lists == SelectSeq([i \in DOMAIN S |-> i], LAMBDA i : ~S[i].single)
              IN  [i \in DOMAIN S |-> [path |-> S[i].item, code |-> 200, v |-> Written(c, T[i], 3)]]
                  \o [k \in DOMAIN lists |-> [path |-> S[lists[k]].list, code |-> 200,
                                              v |-> [j |-> "object", n |-> <<"list">>, v |-> <<[j |-> "array", n |-> <<>>, v |-> <<Written(c, T[lists[k]], 3)>>]>>]]]

Result(c) == Program(c) @@ [panic |-> "", err |-> "", fault |-> "", same |-> TRUE, schemas |-> Schemas(c), paths |-> Paths(c), answers |-> Answers(c)]

VARIABLES last, done
vars == <<last, done>>
Init == last = [op |-> "none"] /\ done = FALSE
Next == /\ ~done
        /\ \E c \in Cases : last' = Result(c)
        /\ done' = TRUE
Spec == Init /\ [][Next]_vars
StepHolds == [][Holds(PROP, 0, last')]_vars
(* what refers to nothing described cannot be told from the answers alone *)
Inv == done /\ Bug = "none" => Closed(last) /\ Answered(last)
=============================================================================
