-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* What can be asked from outside: the queries of the ABCI interface and   *)
(* the HTTP API, over the object store of Store.tla. To its state comes    *)
(*   served   the types the HTTP API was built for                         *)
(* A question is  [op, how, t, k or crit, ...]  and its answer a code, the *)
(* object got and the list seen. Asking never changes anything.            *)
(***************************************************************************)
EXTENDS Store

Asks(L)   == L.op \in {"query", "http", "remote"}
Nothing   == <<>>
NoAnswer(L) == L.got = Nothing /\ L.seen = Nothing

Stored(st, t, k) == t \in st.reg /\ k \in DOMAIN st.objs[t]
Start(L)  == [types |-> L.types, reg |-> {}, objs |-> L.post, dig |-> L.dig, served |-> {}, built |-> FALSE]
QAfter(st, L) == CASE L.op = "init"  -> Start(L)
                   [] L.op = "build" -> [st EXCEPT !.served = st.reg, !.built = TRUE, !.objs = L.post, !.dig = L.dig]
                   [] OTHER -> After(st, L)

Untouched(st, L) == L.panic = "" /\ L.post = st.objs /\ L.dig = st.dig
Changes(st, L)   == L.panic = "" /\ L.err = Expect(st, L).err /\ L.post = NewObjs(st, L)

(* ---- ABCI queries ---- *)
Ids(st) == {st.types[t].id : t \in st.reg}
C26(st, L) ==
    CASE L.op = "query" ->
           /\ Untouched(st, L)
           /\ CASE L.how = "get" ->
                     IF Stored(st, L.t, L.k) THEN L.code = 0 /\ L.got = st.objs[L.t][L.k]
                     ELSE L.code # 0 /\ L.size = 0 /\ NoAnswer(L)
                [] L.how = "resources" -> /\ L.code = 0
                                          /\ L.got = Nothing
                                          /\ Rng(L.seen) = Ids(st) /\ Len(L.seen) = Cardinality(Ids(st))
                [] OTHER -> L.code # 0 /\ L.size = 0
      [] Mutates(L) -> Changes(st, L)
      [] OTHER -> Untouched(st, L)

(* ---- the HTTP API ---- *)
Refused(L)    == L.code >= 400 /\ L.code < 500 /\ NoAnswer(L)
BadHeight(L)  == L.height # ""
BadLimits(L)  == L.limits \notin {"", "start=", "end=", "start=0", "end=100"}
UrlCrit(ty, c) == c.f \in Rng(ty.sks) /\ c.mode = "s"
UrlCrits(ty, L) == \A j \in DOMAIN L.crit : UrlCrit(ty, L.crit[j])
Routed(st, L) == L.t \in st.served /\ (IF L.how = "single" THEN st.types[L.t].single ELSE ~st.types[L.t].single)

Object(st, L) ==
    IF ~Routed(st, L) THEN L.code = 404
    ELSE IF L.k \in {"s0", "b0"} THEN L.code \in {400, 404}
    ELSE IF BadHeight(L) THEN L.code = 400
    ELSE IF L.k = "?" THEN L.code = 400
    ELSE IF Stored(st, L.t, L.k) THEN L.code = 200 /\ L.got = st.objs[L.t][L.k]
    ELSE L.code \in {404} \cup (IF L.k = "sbad" THEN {400} ELSE {})

Listing(st, L) ==
    LET ty == st.types[L.t]
        ks == [j \in DOMAIN L.seen |-> KeyOf(ty, L.seen[j])]
    IN  IF ~Routed(st, L) THEN L.code = 404
        ELSE IF BadHeight(L) \/ BadLimits(L) \/ ~UrlCrits(ty, L) THEN L.code = 400
        ELSE IF L.code = 200
             THEN /\ Listed(st, L, ks)
                  /\ \A j \in DOMAIN L.seen : L.seen[j] = st.objs[L.t][ks[j]]
             (* what selects nothing, or everything, may be refused *)
             ELSE L.code = 400 /\ (L.crit = <<>> \/ Matching(st, L) = {})

Documented(st) == UNION {Rng(st.types[t].paths) : t \in st.served}

C27(st, L) ==
    CASE L.op = "http" ->
           /\ Untouched(st, L)
           /\ L.code # 200 => Refused(L)
           /\ CASE L.how = "spec" -> L.code = 200 /\ Rng(L.seen) = Documented(st) /\ Len(L.seen) = Cardinality(Documented(st))
                [] L.method # "GET" -> Refused(L)
                [] L.how \in {"object", "single"} -> Object(st, L)
                [] L.how = "list" -> Listing(st, L)
                [] OTHER -> L.code = 404
      [] L.op = "build" -> Untouched(st, L) /\ L.err = ""
      [] Mutates(L) -> Changes(st, L)
      [] OTHER -> Untouched(st, L)

(* ---- the client library and the command line, of a node elsewhere ---- *)
(* what they report is what the node stores; a failure is never an answer   *)
C31(st, L) ==
    CASE L.op = "remote" ->
           /\ Untouched(st, L)
           /\ L.code # 0 => NoAnswer(L)
           /\ CASE L.how = "usage" \/ L.node # "up" -> L.code # 0
                [] L.how = "get" -> IF Stored(st, L.t, L.k) THEN L.code = 0 /\ L.got = st.objs[L.t][L.k] ELSE L.code # 0
                [] OTHER                -> /\ L.code = 0
                                          /\ L.got = Nothing
                                          /\ Rng(L.seen) = Ids(st) /\ Len(L.seen) = Cardinality(Ids(st))
      [] Mutates(L) -> Changes(st, L)
      [] OTHER -> Untouched(st, L)

QHolds(p, st, L) ==
    IF L.op = "init" THEN \A t \in DOMAIN L.post : L.post[t] = <<>>
    ELSE CASE p = "C26" -> C26(st, L) [] p = "C27" -> C27(st, L) [] p = "C31" -> C31(st, L)

QTags(st, L) ==
    IF L.op = "query" THEN
         {"query-" \o L.how} \cup (IF L.how = "get" THEN {IF Stored(st, L.t, L.k) THEN "query-found" ELSE "query-not-found"} ELSE {})
         \cup (IF L.how = "get" /\ L.t \notin st.reg THEN {"query-unregistered"} ELSE {})
         \cup (IF L.how = "get" /\ st.types[L.t].single THEN {"query-singleton"} ELSE {})
    ELSE IF L.op = "remote" THEN
         {"remote-" \o L.via, IF L.node # "up" THEN "remote-down" ELSE "remote-" \o L.how}
         \cup (IF L.node = "up" /\ L.how = "get" THEN {IF Stored(st, L.t, L.k) THEN "remote-found" ELSE "remote-not-found"} ELSE {})
         \cup (IF L.node = "up" /\ L.how = "get" /\ L.t \notin st.reg THEN {"remote-unregistered"} ELSE {})
         \cup (IF L.node = "up" /\ L.how = "get" /\ L.t \in st.reg /\ st.types[L.t].single THEN {"remote-singleton"} ELSE {})
    ELSE IF L.op = "http" THEN
         {"http-" \o L.how, "http-" \o (IF L.code < 300 THEN "2xx" ELSE IF L.code = 400 THEN "400" ELSE IF L.code = 404 THEN "404" ELSE "other")}
         \cup (IF L.method # "GET" THEN {"http-method"} ELSE {})
         \cup (IF L.height # "" THEN {"http-height"} ELSE {})
         \cup (IF L.how = "object" /\ L.code = 200 THEN {"http-object-found"} ELSE {})
         \cup (IF L.how = "object" /\ L.code = 200 /\ L.k \in {"s7", "s8", "s9", "s17", "s18", "s20", "s22"} THEN {"http-key-with-slash"} ELSE {})
         \cup (IF L.how = "list" /\ Routed(st, L) /\ BadLimits(L) THEN {"http-limits"} ELSE {})
         \cup (IF L.how = "list" /\ Routed(st, L) /\ ~UrlCrits(st.types[L.t], L) THEN {"http-bad-selection"} ELSE {})
         \cup (IF L.how = "list" /\ L.code = 200 /\ Len(L.seen) > 1 THEN {"http-list-several"} ELSE {})
         \cup (IF L.how = "list" /\ L.code = 200 /\ Len(L.crit) > 1 THEN {"http-list-joined"} ELSE {})
    ELSE IF L.op = "build" THEN {"api-built"} ELSE Tags(st, L)
=============================================================================
