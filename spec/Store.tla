------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The object store: typed objects identified by their primary key, which  *)
(* can be listed by the values of their secondary keys. The state is       *)
(*   types  type -> [pk, single, sks, kinds]  the types of the trace       *)
(*   reg    the registered types                                           *)
(*   objs   type -> (key -> (field -> value))                              *)
(* Values are tokens: what is in a field is compared, never interpreted,   *)
(* except that the empty string and the empty byte string are no keys and  *)
(* "sbad" cannot be encoded.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Put(f, k, v) == (k :> v) @@ f
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]

KeyOf(ty, o)  == IF ty.single THEN "unique" ELSE o[ty.pk]
NoKey(ty, o)  == ~ty.single /\ o[ty.pk] \in {"s0", "b0"}
Broken(o)     == \E f \in DOMAIN o : IF f = "_unknown" THEN o[f] ELSE o[f] = "sbad"

(* the outcome of changing the store: the error ("" none) and the objects *)
Exec(st, op, t, o) ==
    LET ty == st.types[t]
        k  == KeyOf(ty, o)
        is == st.objs[t]
        fails(e) == [err |-> e, objs |-> st.objs]
        sets(x)  == [err |-> "", objs |-> [st.objs EXCEPT ![t] = x]]
    IN  IF t \notin st.reg \/ NoKey(ty, o) THEN fails("other")
        ELSE CASE op = "create" -> IF k \in DOMAIN is THEN fails("exists") ELSE IF Broken(o) THEN fails("other") ELSE sets(Put(is, k, o))
               [] op = "update" -> IF k \notin DOMAIN is THEN fails("notfound") ELSE IF Broken(o) THEN fails("other") ELSE sets(Put(is, k, o))
               [] op = "delete" -> IF k \notin DOMAIN is THEN fails("notfound") ELSE sets(Drop(is, k))

(* criteria of a listing: [f, v, mode]; only secondary keys can be listed by *)
CritOk(ty, c)    == c.f \in Rng(ty.sks) /\ c.mode \in {"i", "s"}
CritsOk(st, L)   == L.t \in st.reg /\ \A j \in DOMAIN L.crit : CritOk(st.types[L.t], L.crit[j])
Match(o, crit)   == \A j \in DOMAIN crit : o[crit[j].f] = crit[j].v
Matching(st, L)  == {k \in DOMAIN st.objs[L.t] : Match(st.objs[L.t][k], L.crit)}
KeyOfSeen(st, L, o) == IF "gone" \in DOMAIN o THEN "?" ELSE KeyOf(st.types[L.t], o)

Mutates(L) == L.op \in {"create", "update", "delete"}
Expect(st, L) == Exec(st, L.op, L.t, L.o)
NewObjs(st, L) == CASE Mutates(L) -> Expect(st, L).objs
                    [] L.op = "listmod" /\ L.ran -> Exec(st, L.mod.op, L.t, L.mod.o).objs
                    [] OTHER -> st.objs
NewReg(st, L)  == IF L.op = "register" THEN st.reg \cup {L.t} ELSE st.reg
After(st, L)   == IF L.op = "init" THEN [types |-> L.types, reg |-> {}, objs |-> L.post, dig |-> L.dig]
                  ELSE [st EXCEPT !.objs = L.post, !.dig = L.dig, !.reg = NewReg(st, L)]

(* ---- the properties ---- *)

(* a map from keys to objects for each type *)
C20(st, L) ==
    /\ L.panic = ""
    /\ L.post = NewObjs(st, L)
    /\ Mutates(L) => L.err = Expect(st, L).err
    /\ L.op = "register" => L.err = (IF L.t \in st.reg THEN "other" ELSE "")
    /\ L.op = "get" => IF L.t \in st.reg /\ L.k \in DOMAIN st.objs[L.t]
                       THEN L.err = "" /\ L.got = st.objs[L.t][L.k]
                       ELSE L.err = (IF L.t \in st.reg /\ L.k \notin {"s0", "b0"} THEN "notfound" ELSE "other")

(* listings are exactly what is stored *)
Listed(st, L, ks) == Rng(ks) = Matching(st, L) /\ Len(ks) = Cardinality(Matching(st, L))
SeenKeys(st, L, seen) == [j \in DOMAIN seen |-> KeyOfSeen(st, L, seen[j])]
C21(st, L) ==
    CASE L.op = "list" ->
           /\ L.panic = ""
           /\ IF ~CritsOk(st, L) \/ L.err # ""
              THEN L.seen = <<>> /\ (CritsOk(st, L) /\ L.crit # <<>> => Matching(st, L) = {})
              ELSE /\ Listed(st, L, SeenKeys(st, L, L.seen))
                   /\ \A j \in DOMAIN L.seen : L.seen[j] = st.objs[L.t][KeyOf(st.types[L.t], L.seen[j])]
      [] L.op = "audit" ->
           L.t \in st.reg =>
           \A f \in DOMAIN L.res : \A v \in DOMAIN L.res[f] :
              Listed(st, [t |-> L.t, crit |-> <<[f |-> f, v |-> v, mode |-> "i"]>>], L.res[f][v])
      [] L.op = "order" -> L.t \in st.reg => L.a = L.b /\ L.c = L.d /\ L.fresh \in {L.dig, "?"}
      [] L.op = "listmod" ->
           IF ~CritsOk(st, L) THEN L.seen = <<>> /\ L.err # ""
           ELSE /\ L.panic = ""
                /\ Listed(st, L, L.base)
                /\ L.seen = [j \in DOMAIN L.base |->
                               LET now == IF L.ran /\ j > L.cut THEN NewObjs(st, L)[L.t] ELSE st.objs[L.t]
                               IN  IF L.base[j] \in DOMAIN now THEN now[L.base[j]] ELSE [gone |-> "notfound"]]
      [] OTHER -> TRUE

(* whatever fails says so and changes nothing; reading never changes anything *)
C22(st, L) ==
    /\ L.panic = ""
    /\ Mutates(L) => /\ Expect(st, L).err # "" => L.err # ""
                     /\ L.err # "" => L.post = st.objs /\ L.dig = st.dig
    /\ L.op = "listmod" /\ L.ran => (L.merr # "") = (Exec(st, L.mod.op, L.t, L.mod.o).err # "")
    /\ L.op = "listmod" /\ (~L.ran \/ L.merr # "") => L.post = st.objs /\ L.dig = st.dig
    /\ L.op = "list" /\ ~CritsOk(st, L) => L.err # "" /\ L.seen = <<>>
    /\ L.op = "get" /\ (L.t \notin st.reg \/ L.k \notin DOMAIN st.objs[L.t]) => L.err # ""
    /\ L.op = "register" => (L.t \in st.reg => L.err # "")
    /\ L.op \in {"get", "list", "audit", "order", "register"} => L.post = st.objs /\ L.dig = st.dig

Holds(p, st, L) ==
    IF L.op = "init" THEN \A t \in DOMAIN L.post : L.post[t] = <<>>
    ELSE CASE p = "C20" -> C20(st, L) [] p = "C21" -> C21(st, L) [] p = "C22" -> C22(st, L)

Tags(st, L) ==
    IF L.op = "init" THEN {"store-init"}
    ELSE {"store-" \o L.op}
         \cup (IF Mutates(L) THEN {L.op \o "-" \o (IF Expect(st, L).err = "" THEN "ok" ELSE Expect(st, L).err)} ELSE {})
         \cup (IF Mutates(L) /\ L.t \notin st.reg THEN {"unregistered"} ELSE {})
         \cup (IF Mutates(L) /\ L.t \in st.reg /\ Broken(L.o) THEN {"unencodable"} ELSE {})
         \cup (IF L.op = "update" /\ L.err = "" /\ L.t \in st.reg /\ KeyOf(st.types[L.t], L.o) \in DOMAIN st.objs[L.t]
                  /\ \E f \in Rng(st.types[L.t].sks) : st.objs[L.t][KeyOf(st.types[L.t], L.o)][f] # L.o[f] THEN {"update-moves-index"} ELSE {})
         \cup (IF L.op = "list" /\ ~CritsOk(st, L) THEN {"list-invalid"} ELSE {})
         \cup (IF L.op = "list" /\ CritsOk(st, L) /\ Cardinality(Matching(st, L)) > 1 /\ L.crit # <<>> THEN {"list-several"} ELSE {})
         \cup (IF L.op = "list" /\ CritsOk(st, L) /\ Len(L.crit) > 1 /\ Matching(st, L) # {} THEN {"list-joined"} ELSE {})
         \cup (IF L.op = "list" /\ CritsOk(st, L) /\ L.crit # <<>> /\ Matching(st, L) = {} THEN {"list-nothing"} ELSE {})
         \cup (IF L.op = "listmod" /\ L.ran /\ L.merr = "" THEN {"changed-while-listing"} ELSE {})
         \cup (IF L.op = "order" /\ L.c # <<>> THEN {"order-compared"} ELSE {})
         \cup (IF st.types[L.t].single /\ Mutates(L) THEN {"singleton"} ELSE {})
=============================================================================
