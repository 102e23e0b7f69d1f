------------------------------- MODULE QueryMC -------------------------------
(* Every history of a small store with every question in between, answered    *)
(* the way the code goes about it - looking up the type by group and kind,    *)
(* the object by its raw identifier, the list by joining indexes - checked    *)
(* against what Query.tla promises. Bug plants a defect in the answers.       *)
EXTENDS Query, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

Types == [T0 |-> [pk |-> "k", single |-> FALSE, sks |-> <<"f1", "f2">>, id |-> "g|t", paths |-> <<"/g/t/{k}", "/g/ts">>],
          T1 |-> [pk |-> "k", single |-> FALSE, sks |-> <<>>, id |-> "g|ta", paths |-> <<"/g/ta/{k}", "/g/tas">>],
          T2 |-> [pk |-> "", single |-> TRUE, sks |-> <<>>, id |-> "h|t", paths |-> <<"/h/t">>]]
Keys  == IF Big THEN {"0", "1", "2", "s0"} ELSE {"0", "1", "s0"}
Vals  == {"0", "1"}
ObjsOf(t) == IF t = "T0" THEN {[k |-> k, f1 |-> a, f2 |-> b] : k \in Keys, a \in Vals, b \in Vals}
             ELSE {[k |-> k, p |-> a] : k \in Keys \ {"2"}, a \in Vals}

VARIABLES st, last
vars == <<st, last>>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Emit(L) == LET M == L @@ [panic |-> "", post |-> st.objs, dig |-> st.objs] IN last' = M /\ st' = QAfter(st, M)

KeysOf(t) == IF Types[t].single THEN {"unique"} ELSE Keys
Register == \E t \in DOMAIN Types : Emit([op |-> "register", t |-> t, err |-> IF t \in st.reg THEN "other" ELSE ""])
Change   == \E t \in DOMAIN Types : \E o \in ObjsOf(t) : \E op \in {"create", "update", "delete"} :
              LET r == Exec(st, op, t, o)
                  L == [op |-> op, t |-> t, o |-> o, err |-> r.err, panic |-> "", post |-> r.objs, dig |-> r.objs]
              IN  Emit(L)
Build    == ~st.built /\ Emit([op |-> "build", t |-> "", err |-> ""])

Has(t, k)    == \/ t \in st.reg /\ k \in DOMAIN st.objs[t]
Owners(k)       == {t \in st.reg : k \in DOMAIN st.objs[t]}
Empty(t)     == [k |-> ""]
Q(how, t, k) == [op |-> "query", how |-> how, t |-> t, k |-> k, seen |-> <<>>, got |-> <<>>, size |-> 0, code |-> 1]
Query ==
    \/ \E t \in DOMAIN Types : \E k \in KeysOf(t) \cup {"?"} :
         LET q == Q("get", t, k)
             yes(o) == [q EXCEPT !.code = 0, !.size = 9, !.got = o]
         IN  Emit(IF Has(t, k) THEN yes(st.objs[t][k])
                  ELSE IF Bug = "any-kind" /\ Owners(k) # {} THEN yes(st.objs[CHOOSE x \in Owners(k) : TRUE][k])
                  ELSE IF Bug = "empty-found" /\ t \in st.reg THEN yes(Empty(t))
                  ELSE q)
    \/ LET ids == {st.types[t].id : t \in (IF Bug = "stale-resources" /\ st.built THEN st.served ELSE st.reg)}
       IN  Emit([Q("resources", "", "") EXCEPT !.code = 0, !.size = 9, !.seen = SeqOf(ids)])
    \/ \E t \in DOMAIN Types : Emit(Q("wrong", t, "0"))

Found(t, crit) == {k \in DOMAIN st.objs[t] : IF Bug = "any-of" THEN crit = <<>> \/ \E j \in DOMAIN crit : crit[j].f \in DOMAIN st.objs[t][k] /\ st.objs[t][k][crit[j].f] = crit[j].v
                                              ELSE \A j \in DOMAIN crit : crit[j].f \in DOMAIN st.objs[t][k] => st.objs[t][k][crit[j].f] = crit[j].v}
Crits == {<<>>, <<[f |-> "zz", v |-> "0", mode |-> "s"]>>, <<[f |-> "f1", v |-> "0", mode |-> "noeq"]>>}
         \cup {<<[f |-> f, v |-> v, mode |-> "s"]>> : f \in {"f1", "f2"}, v \in Vals}
         \cup {<<[f |-> "f1", v |-> v, mode |-> "s"], [f |-> "f2", v |-> w, mode |-> "s"]>> : v \in Vals, w \in Vals}
H(how, t) == [op |-> "http", how |-> how, t |-> t, method |-> "GET", height |-> "", limits |-> "", crit |-> <<>>, k |-> "", seen |-> <<>>, got |-> <<>>, code |-> 404]
Odd       == {[method |-> "GET", height |-> "", limits |-> ""], [method |-> "POST", height |-> "", limits |-> ""],
              [method |-> "GET", height |-> "0", limits |-> ""], [method |-> "GET", height |-> "", limits |-> "start=x"]}
With(h, x) == [h EXCEPT !.method = x.method, !.height = x.height, !.limits = x.limits]
Http ==
    \/ \E t \in DOMAIN Types : \E x \in Odd : \E how \in {"object", "single"} : \E k \in (IF how = "single" THEN {"unique"} ELSE Keys \cup {"?"}) :
         LET h == With([H(how, t) EXCEPT !.k = k], x)
         IN  Emit(IF x.method # "GET" /\ Bug # "any-method" THEN [h EXCEPT !.code = 405]
                  ELSE IF t \notin st.served \/ Types[t].single # (how = "single") THEN h
                  ELSE IF (x.height # "" /\ Bug # "any-height") \/ k = "?" THEN [h EXCEPT !.code = 400]
                  ELSE IF Has(t, k) THEN [h EXCEPT !.code = 200, !.got = st.objs[t][k]]
                  ELSE IF Bug = "empty-found" THEN [h EXCEPT !.code = 200, !.got = Empty(t)]
                  ELSE h)
    \/ \E t \in DOMAIN Types : \E x \in Odd : \E c \in Crits :
         LET h == With([H("list", t) EXCEPT !.crit = c], x)
             bad == \E j \in DOMAIN c : c[j].f \notin Rng(Types[t].sks) \/ c[j].mode # "s"
             ks == SeqOf(Found(t, c))
         IN  Emit(IF x.method # "GET" THEN [h EXCEPT !.code = 405]
                  ELSE IF t \notin st.served \/ Types[t].single THEN h
                  ELSE IF x.height # "" \/ x.limits # "" \/ (bad /\ Bug # "skips-selection") THEN [h EXCEPT !.code = 400]
                  ELSE IF ks = <<>> THEN [h EXCEPT !.code = 400]
                  ELSE [h EXCEPT !.code = 200, !.seen = [j \in DOMAIN ks |-> st.objs[t][ks[j]]]])
    \/ st.built /\ Emit([H("spec", "") EXCEPT !.code = 200, !.seen = SeqOf(UNION {Rng(Types[t].paths) : t \in (IF Bug = "first-documented" THEN {CHOOSE t \in DOMAIN Types : TRUE} ELSE st.served)})])
    \/ Emit(H("nowhere", ""))

(* a client elsewhere: it asks the node, which may be out of reach *)
R(how, t, k, via, node) == [op |-> "remote", how |-> how, t |-> t, k |-> k, via |-> via, node |-> node, seen |-> <<>>, got |-> <<>>, code |-> 1]
Remote ==
    \E via \in {"rpc", "cli"} : \E node \in {"up", "refused"} :
      \/ \E t \in DOMAIN Types : \E k \in KeysOf(t) \cup {"?"} :
           LET r == R("get", t, k, via, node)
               yes(o) == [r EXCEPT !.code = 0, !.got = o]
           IN  Emit(IF node # "up" THEN (IF Bug = "silent-client" THEN yes(<<>>) ELSE r)
                    ELSE IF Has(t, k) THEN yes(st.objs[t][k])
                    ELSE IF Bug = "any-kind" /\ Owners(k) # {} THEN yes(st.objs[CHOOSE x \in Owners(k) : TRUE][k])
                    ELSE IF Bug = "empty-found" /\ t \in st.reg THEN yes(Empty(t))
                    ELSE r)
      \/ LET ids == {st.types[t].id : t \in (IF Bug = "stale-resources" /\ st.built THEN st.served ELSE st.reg)}
         IN  Emit(IF node = "up" THEN [R("resources", "", "", via, node) EXCEPT !.code = 0, !.seen = SeqOf(ids)] ELSE R("resources", "", "", via, node))
      \/ via = "cli" /\ Emit(R("usage", "T0", "0", via, node))

NoObjs == [t \in DOMAIN Types |-> <<>>]
Init == st = [types |-> Types, reg |-> {}, objs |-> NoObjs, dig |-> NoObjs, served |-> {}, built |-> FALSE] /\ last = [op |-> "init"]
Next == Register \/ Change \/ Build \/ Query \/ Remote \/ (st.built /\ Http)
Spec == Init /\ [][Next]_vars
View  == st
Bound == Cardinality(DOMAIN st.objs.T0) + Cardinality(DOMAIN st.objs.T1) <= (IF Big THEN 3 ELSE 2)
StepHolds == [][QHolds(PROP, st, last')]_vars
=============================================================================
