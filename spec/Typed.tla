------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* What the code generator makes of the declarations of a proto file: a    *)
(* client for each state object, through which exactly the objects of this *)
(* type are reached, and a method for each state transition, which         *)
(* delivers it. The state is that of the object store (Store.tla), all the *)
(* declared types being registered as they are declared.                   *)
(***************************************************************************)
EXTENDS Store

(* ---- what is generated at all ---- *)
Field(m, f) == \E j \in DOMAIN m.fields : m.fields[j].json = f /\ m.fields[j].kind \in {"string", "bytes"} /\ ~m.fields[j].rep
ValidMsg(m) == CASE m.kind = "both"   -> FALSE
                 [] m.kind = "object" -> m.single \/ Field(m, m.pk)
                 [] OTHER -> TRUE
ValidDef(d) == d.pkg # "" /\ \A j \in DOMAIN d.msgs : ValidMsg(d.msgs[j])
(* files are generated for what was asked for, each as if it were alone *)
Together(L) == L.panic = "" /\ L.files = L.expected /\ L.same
HasAny(d) == \E j \in DOMAIN d.msgs : d.msgs[j].kind # "plain"
Generates(L) == IF ~HasAny(L.def) THEN L.accepted /\ L.files = 0
                ELSE IF ValidDef(L.def) THEN L.accepted /\ L.files = 1 /\ L.compiled
                ELSE ~L.accepted

(* ---- what it offers ---- *)
MethodOf(m) == IF ~m.object THEN "Exec" \o m.go ELSE IF m.single \/ m.ends THEN m.go ELSE m.go \o "s"
Offers(m) == /\ m.panic = ""
             /\ m.api.group = m.pkg /\ m.api.kind = m.name
             /\ m.api.is = (IF m.object THEN "object" ELSE "transition")
             /\ m.api.type = (IF m.object THEN "StateObject" ELSE "StateTransition")
             /\ m.api.fresh /\ m.api.alone
             /\ m.object => m.api.sch = [single |-> m.single, pk |-> m.pk, sks |-> m.sks]
Surface(L) == /\ \A j \in DOMAIN L.msgs : Offers(L.msgs[j])
              /\ Rng(L.methods) = {MethodOf(L.msgs[j]) : j \in DOMAIN L.msgs}
              /\ Len(L.methods) = Len(L.msgs)

(* ---- what it does ---- *)
Does(st, L) == LET r == Expect(st, L)
               IN  IF L.upsert /\ r.err = "notfound" THEN Exec(st, "create", L.t, L.o) ELSE r
Changed(st, L) == /\ L.err = Does(st, L).err /\ L.post = Does(st, L).objs
                  /\ L.ran = (IF L.options THEN 2 ELSE 0)
Unchanged(st, L) == L.post = st.objs /\ L.dig = st.dig
Gets(st, L) == LET is == st.objs[L.t]
               IN  L.at = <<L.height>> /\
                   CASE L.height # "0" -> L.err = "told" /\ L.nothing
                     [] L.height = "0" /\ L.k \in DOMAIN is -> L.err = "" /\ ~L.nothing /\ L.got = is[L.k]
                     [] OTHER -> L.nothing /\ L.err = (IF L.k \in {"s0", "b0"} THEN "other" ELSE "notfound")
Lists(st, L) == L.at = <<L.height, L.start, L.end>> /\
                IF L.height # "0" THEN L.err = "told" /\ L.seen = <<>>
                ELSE IF L.err # "" THEN L.seen = <<>> /\ (CritsOk(st, L) /\ L.crit # <<>> => Matching(st, L) = {})
                ELSE /\ Listed(st, L, SeenKeys(st, L, L.seen))
                     /\ \A j \in DOMAIN L.seen : L.seen[j] = st.objs[L.t][KeyOf(st.types[L.t], L.seen[j])]
Sends(L) == L.sent = <<[t |-> L.t, v |-> L.v]>> /\ L.err = (IF L.fails THEN "told" ELSE "")

TypedHolds(st, L) ==
    CASE L.op = "generate" -> Generates(L)
      [] L.op = "together" -> Together(L)
      [] L.op = "init"     -> \A t \in DOMAIN L.post : L.post[t] = <<>>
      [] L.op = "surface"  -> Surface(L)
      [] Mutates(L)        -> L.panic = "" /\ Changed(st, L) /\ (L.err # "" => Unchanged(st, L))
      [] L.op = "get"      -> L.panic = "" /\ Gets(st, L) /\ Unchanged(st, L)
      [] L.op = "list"     -> L.panic = "" /\ Lists(st, L) /\ Unchanged(st, L)
      [] L.op = "exec"     -> L.panic = "" /\ Sends(L) /\ Unchanged(st, L)

TypedAfter(st, L) ==
    CASE L.op = "init" -> [types |-> L.types, reg |-> DOMAIN L.types, objs |-> L.post, dig |-> L.dig]
      [] L.op \in {"generate", "together", "surface"} -> st
      [] OTHER -> [st EXCEPT !.objs = L.post, !.dig = L.dig]

TypedTags(st, L) ==
    {"typed-" \o L.op}
    \cup (CASE L.op = "generate" ->
                  {IF ~HasAny(L.def) THEN "nothing-declared" ELSE IF ValidDef(L.def) THEN "valid-definition" ELSE "invalid-definition"}
                  \cup {"declares-" \o L.def.msgs[j].kind : j \in DOMAIN L.def.msgs}
                  \cup (IF \E j \in DOMAIN L.def.msgs : L.def.msgs[j].kind = "object" /\ ~L.def.msgs[j].single /\ L.def.pkg # "" /\ ~ValidMsg(L.def.msgs[j])
                        THEN {"bad-key-declared"} ELSE {})
            [] Mutates(L) -> {"typed-" \o L.op \o "-" \o (IF Does(st, L).err = "" THEN "ok" ELSE Does(st, L).err)}
                             \cup (IF L.upsert /\ Expect(st, L).err = "notfound" THEN {"typed-upsert"} ELSE {})
                             \cup (IF L.options THEN {"typed-options"} ELSE {})
                             \cup (IF st.types[L.t].single THEN {"typed-singleton"} ELSE {})
            [] L.op = "get" -> IF L.height # "0" THEN {"typed-at-height"} ELSE IF L.k \in DOMAIN st.objs[L.t] THEN {"typed-found"} ELSE {"typed-not-found"}
            [] L.op = "list" -> (IF L.height = "0" /\ Len(L.seen) > 0 THEN {"typed-list-some"} ELSE {})
                                \cup (IF L.end # "0" THEN {"typed-range"} ELSE {})
                                \cup (IF L.height = "0" /\ Len(L.seen) > 1 THEN {"typed-list-several"} ELSE {})
            [] L.op = "together" -> {"together-with-imported"}
            [] L.op = "exec" /\ L.fails -> {"typed-exec-fails"}
            [] OTHER -> {})
=============================================================================
