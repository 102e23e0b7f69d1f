------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Which types of state objects can be registered. A case is               *)
(*   fields  the fields of the message: [name, json, kind, card]           *)
(*   single, pk, sks   the definition it is registered with                *)
(* kinds "mapmsg" and "deepmap" are messages with a map somewhere inside,  *)
(* "rec" is a message which refers to itself.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

KeyKinds    == {"string", "bytes", "bool", "int32", "uint32", "int64", "uint64"}
Unsupported == {"sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"}
Rng(s) == {s[i] : i \in DOMAIN s}

Named(c, j)  == {i \in DOMAIN c.fields : c.fields[i].json = j}
FieldOf(c, j) == c.fields[CHOOSE i \in Named(c, j) : TRUE]
Indexable(c, j) == Named(c, j) # {} /\ FieldOf(c, j).kind \in KeyKinds /\ FieldOf(c, j).card # "map"
Repeated(c, j)  == FieldOf(c, j).card = "list"

HasMap(c)  == \E i \in DOMAIN c.fields : c.fields[i].card = "map" \/ c.fields[i].kind \in {"mapmsg", "deepmap"}
HasKind(c) == \E i \in DOMAIN c.fields : c.fields[i].kind \in Unsupported /\ c.fields[i].card # "map"
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

Accept(c) ==
    /\ IF c.single THEN c.pk = "" /\ c.sks = <<>> ELSE c.pk # ""
    /\ ~HasMap(c) /\ ~HasKind(c)
    /\ ~c.single => Indexable(c, c.pk) /\ ~Repeated(c, c.pk)
    /\ \A i \in DOMAIN c.sks : Indexable(c, c.sks[i])
    /\ Distinct(c.sks)

(* a registered type is listed, cannot be registered again, and its objects  *)
(* can be stored, read, listed by each secondary key, changed and removed    *)
C23(L) == /\ L.panic = ""
          /\ L.accepted = Accept(L)
          /\ L.listed = L.accepted
          /\ ~L.again
          /\ L.accepted => L.usable = ""

(* types with a repeated secondary key are accepted, but storing them panics *)
Known(L) == IF /\ L.panic = "" /\ L.accepted /\ Accept(L) /\ L.listed /\ ~L.again
               /\ \E i \in DOMAIN L.sks : Repeated(L, L.sks[i])
               /\ L.usable # ""
            THEN "repeated-secondary-key" ELSE ""

Holds(p, st, L) == p = "C23" => C23(L)

Tags(st, L) ==
    {IF Accept(L) THEN "schema-accepted" ELSE "schema-refused"}
    \cup (IF Accept(L) /\ L.single THEN {"schema-singleton"} ELSE {})
    \cup (IF Accept(L) /\ Len(L.sks) > 1 THEN {"schema-many-indexes"} ELSE {})
    \cup (IF L.single /\ (L.pk # "" \/ L.sks # <<>>) THEN {"singleton-with-keys"} ELSE {})
    \cup (IF ~L.single /\ L.pk = "" THEN {"no-key"} ELSE {})
    \cup (IF HasMap(L) THEN {"schema-map"} ELSE {})
    \cup (IF \E i \in DOMAIN L.fields : L.fields[i].kind = "deepmap" THEN {"schema-deep-map"} ELSE {})
    \cup (IF HasKind(L) THEN {"schema-unsupported-kind"} ELSE {})
    \cup (IF L.pk # "" /\ Named(L, L.pk) = {} THEN {"unknown-key"} ELSE {})
    \cup (IF \E i \in DOMAIN L.fields : L.fields[i].name = L.pk /\ L.fields[i].json # L.pk THEN {"key-by-proto-name"} ELSE {})
    \cup (IF Indexable(L, L.pk) /\ Repeated(L, L.pk) THEN {"repeated-key"} ELSE {})
    \cup (IF ~Distinct(L.sks) THEN {"duplicate-indexes"} ELSE {})
    \cup (IF Known(L) # "" THEN {Known(L)} ELSE {})
=============================================================================
