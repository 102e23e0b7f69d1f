-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* The document of the HTTP API (/spec) against what it answers.           *)
(*   msgs    the messages objects are made of: [full, fields, inner], a    *)
(*           field being [json, kind, card, ref]                           *)
(*   served  the objects: [full, single, pk, item, list], the last two     *)
(*           being the paths they are served at                            *)
(*   schemas the components of the document: [name, props]                 *)
(*   paths   its operations: [path, methods, id, params, s], s the answer  *)
(*   answers what was answered: [path, code, v]                            *)
(* Shapes, of properties and answers, are [t, ref, it, iref]: the type, or *)
(* "ref" and the component, and the same of the items of an array.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

(* JSON, which 64-bit integers are too large for, has these for values *)
Texts    == {"string", "bytes", "enum", "int64", "sint64", "sfixed64", "uint64", "fixed64"}
Integral == {"int32", "sint32", "sfixed32", "uint32", "fixed32"}
Pb(n) == "google.protobuf." \o n
WellKnown == [n \in {Pb("Timestamp"), Pb("Duration"), Pb("StringValue"), Pb("BytesValue"), Pb("Int64Value"), Pb("UInt64Value")} |-> "string"]
             @@ [n \in {Pb("Int32Value"), Pb("UInt32Value")} |-> "integer"]
             @@ [n \in {Pb("FloatValue"), Pb("DoubleValue")} |-> "number"]
             @@ [n \in {Pb("BoolValue")} |-> "boolean"]
Of(f) == IF f.kind \in Texts THEN [t |-> "string", ref |-> ""]
         ELSE IF f.kind \in Integral THEN [t |-> "integer", ref |-> ""]
         ELSE IF f.kind = "bool" THEN [t |-> "boolean", ref |-> ""]
         ELSE IF f.kind \in {"float", "double"} THEN [t |-> "number", ref |-> ""]
         ELSE IF f.ref \in DOMAIN WellKnown THEN [t |-> WellKnown[f.ref], ref |-> ""]
         ELSE [t |-> "ref", ref |-> f.ref]
Shape(f) == LET b == Of(f)
            IN  IF f.card = "list" THEN [t |-> "array", ref |-> "", it |-> b.t, iref |-> b.ref]
                ELSE [t |-> b.t, ref |-> b.ref, it |-> "", iref |-> ""]
RefTo(n) == [t |-> "ref", ref |-> n, it |-> "", iref |-> ""]
ListOf(n) == [t |-> "array", ref |-> "", it |-> "ref", iref |-> n]
Item(s) == [t |-> s.it, ref |-> s.iref, it |-> "", iref |-> ""]

Foreign(n) == n = Pb("Any") \* anything can be in it
Names(L)   == {L.schemas[i].name : i \in DOMAIN L.schemas}
Comp(L, n) == L.schemas[CHOOSE i \in DOMAIN L.schemas : L.schemas[i].name = n]
Props(c)   == {<<c.props[i].json, c.props[i].s>> : i \in DOMAIN c.props}
Type(L, n) == L.msgs[CHOOSE i \in DOMAIN L.msgs : L.msgs[i].full = n]
RefsOf(m)  == {Of(m.fields[i]).ref : i \in DOMAIN m.fields} \ {""}

RECURSIVE Reach(_, _)
Reach(L, S) == LET T == S \cup UNION {RefsOf(Type(L, n)) : n \in {x \in S : ~Foreign(x)}}
               IN  IF T = S THEN S ELSE Reach(L, T)
Needed(L) == Reach(L, {L.served[i].full : i \in DOMAIN L.served})

(* the document is closed: no name is taken twice, nothing refers to nowhere *)
Closed(L) == /\ Cardinality(Names(L)) = Len(L.schemas)
             /\ \A i \in DOMAIN L.schemas : \A j \in DOMAIN L.schemas[i].props :
                   LET s == L.schemas[i].props[j].s
                   IN  (s.t = "ref" => s.ref \in Names(L)) /\ (s.t = "array" /\ s.it = "ref" => s.iref \in Names(L))
             /\ \A i \in DOMAIN L.paths : L.paths[i].s.t = "ref" => L.paths[i].s.ref \in Names(L)

(* every message has a component, with its fields as they are written *)
Described(L) == \A n \in Needed(L) :
                   /\ n \in Names(L)
                   /\ Foreign(n) \/ LET c == Comp(L, n)
                                        m == Type(L, n)
                                    IN  /\ Len(c.props) = Len(m.fields)
                                        /\ Props(c) = {<<m.fields[i].json, Shape(m.fields[i])>> : i \in DOMAIN m.fields}

(* exactly what is served is documented: an operation for each path, which can *)
(* only be got, with the parameters there are                                  *)
In(P, where) == {i \in DOMAIN P.params : P.params[i].in = where}
ListParams == {"selectField", "start", "end"}
Operation(L, path) == L.paths[CHOOSE i \in DOMAIN L.paths : L.paths[i].path = path]
ItemPaths(L) == {L.served[i].item : i \in DOMAIN L.served}
ListPaths(L) == {L.served[i].list : i \in {j \in DOMAIN L.served : ~L.served[j].single}}
Operations(L) ==
    /\ {L.paths[i].path : i \in DOMAIN L.paths} = ItemPaths(L) \cup ListPaths(L)
    /\ Cardinality({L.paths[i].id : i \in DOMAIN L.paths} \ {""}) = Len(L.paths)
    /\ \A i \in DOMAIN L.paths : L.paths[i].methods = <<"GET">>
    /\ \A i \in DOMAIN L.served :
          LET o == L.served[i]
              P == Operation(L, o.item)
          IN  /\ P.s = RefTo(o.full)
              /\ {P.params[j].name : j \in In(P, "path")} = (IF o.single THEN {} ELSE {o.pk})
              /\ Cardinality(In(P, "path")) = (IF o.single THEN 0 ELSE 1)
              /\ \A j \in DOMAIN P.params : P.params[j].required = (P.params[j].in = "path")
              /\ o.single \/
                 LET Q == Operation(L, o.list)
                 IN  /\ Q.s.t = "ref" /\ Q.s.ref \in Names(L)
                     /\ LET c == Comp(L, Q.s.ref) IN Len(c.props) = 1 /\ c.props[1].s = ListOf(o.full)
                     /\ In(Q, "path") = {}
                     /\ ListParams \subseteq {Q.params[j].name : j \in In(Q, "query")}
                     /\ \A j \in DOMAIN Q.params : ~Q.params[j].required

RECURSIVE Fits(_, _, _)
Fits(L, v, s) ==
    CASE s.t = "ref" -> v.j = "object" /\ (Foreign(s.ref) \/
                           (/\ s.ref \in Names(L)
                            /\ LET c == Comp(L, s.ref)
                               IN  \A i \in DOMAIN v.n : \E j \in DOMAIN c.props : c.props[j].json = v.n[i] /\ Fits(L, v.v[i], c.props[j].s)))
      [] s.t = "array" -> v.j = "array" /\ (\A i \in DOMAIN v.v : Fits(L, v.v[i], Item(s)))
      [] s.t = "number" -> v.j \in {"number", "integer"}
      [] OTHER -> v.j = s.t
Answered(L) == \A i \in DOMAIN L.answers :
                  LET a == L.answers[i] IN a.code = 200 /\ Fits(L, a.v, Operation(L, a.path).s)

C33(L) == /\ L.panic = "" /\ L.err = "" /\ L.fault = "" /\ L.same
          /\ Closed(L) /\ Described(L) /\ Operations(L)
          /\ Answered(L)

Holds(p, st, L) == p = "C33" => C33(L)

HasKind(L, K) == \E i \in DOMAIN L.msgs : \E j \in DOMAIN L.msgs[i].fields : L.msgs[i].fields[j].kind \in K
HasRef(L, R)  == \E i \in DOMAIN L.msgs : \E j \in DOMAIN L.msgs[i].fields : L.msgs[i].fields[j].ref \in R
Tags(st, L) ==
    {"doc-" \o L.op}
    \cup (IF \E i \in DOMAIN L.msgs : L.msgs[i].inner THEN {"doc-nested"} ELSE {})
    \cup (IF \E i \in DOMAIN L.msgs : L.msgs[i].full \in RefsOf(L.msgs[i]) THEN {"doc-recursive"} ELSE {})
    \cup (IF HasKind(L, Texts \ {"string", "bytes", "enum"}) THEN {"doc-64-bit"} ELSE {})
    \cup (IF HasKind(L, {"enum"}) THEN {"doc-enum"} ELSE {})
    \cup (IF HasRef(L, DOMAIN WellKnown) THEN {"doc-well-known"} ELSE {})
    \cup (IF HasRef(L, {Pb("Any")}) THEN {"doc-any"} ELSE {})
    \cup (IF \E i \in DOMAIN L.served : L.served[i].single THEN {"doc-singleton"} ELSE {})
    \cup (IF Len(L.served) > Cardinality({L.served[i].full : i \in DOMAIN L.served}) \/ Cardinality(ListPaths(L)) > 1 THEN {"doc-several-lists"} ELSE {})
    \cup (IF \E i \in DOMAIN L.answers : L.answers[i].path \in ListPaths(L) THEN {"doc-list-answered"} ELSE {})
    \cup (IF Len(L.served) = 0 THEN {"doc-nothing-served"} ELSE {})
=============================================================================
