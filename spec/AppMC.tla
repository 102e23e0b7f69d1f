-------------------------------- MODULE AppMC --------------------------------
(* Small applications, everything that can be asked of them in a few steps,   *)
(* and what follows from the properties; every way to compose a few modules,  *)
(* registered one after another; every small graph of files. Bug plants a     *)
(* defect.                                                                    *)
EXTENDS App, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

------------------------------------------------------------------------------
(* compositions *)
Hd(st, h)  == [st |-> st, h |-> h]
Ob(n)      == [n |-> n, bad |-> FALSE]
Gen(h, as) == [has |-> TRUE, h |-> h, acts |-> as]
Svc(h, as) == [h |-> h, acts |-> as, failstop |-> FALSE]
Act(a, o, id, v) == [a |-> a, o |-> o, id |-> id, v |-> v, at |-> 0, sw |-> FALSE]
Sw(a)      == [a EXCEPT !.sw = TRUE]
FailAs(how) == [a |-> "fail", how |-> how]
Empty(n)   == [name |-> n, real |-> FALSE, objs |-> <<>>, handles |-> <<>>, adm |-> <<>>, pre |-> <<>>, post |-> <<>>,
               needs |-> <<>>, authadm |-> <<>>, postauth |-> <<>>, svcs |-> <<>>, authz |-> FALSE, gen |-> NoGen]
RealRbac   == [Empty("rbac") EXCEPT !.real = TRUE]
T1 == "a.T1"
T2 == "a.T2"
O1 == "a.O1"
O2 == "a.O2"
One == [Empty("m1") EXCEPT !.objs = <<Ob(O1)>>, !.handles = <<Hd(T1, "x1")>>, !.adm = <<Hd(T1, "a1")>>, !.post = <<Hd(T2, "q1")>>,
                           !.needs = <<T2>>, !.authadm = <<"aa1">>, !.postauth = <<"pa1">>, !.gen = Gen("g1", <<Act("upsert", O1, "z/z", "1")>>)]
Two == [Empty("m2") EXCEPT !.objs = <<Ob(O2)>>, !.handles = <<Hd(T2, "x2")>>, !.adm = <<Hd(T1, "a2")>>, !.pre = <<Hd(T1, "p2")>>, !.authadm = <<"aa2">>,
                           !.gen = Gen("g2", <<Sw(Act("upsert", O1, "z/z", "2"))>>),
                           !.svcs = <<Svc("s2", <<Act("get", O1, "z/z", ""), Sw(Act("create", O2, "y", "3"))>>)>>]
Early == [Empty("m3") EXCEPT !.svcs = <<Svc("s3", <<Sw(Act("update", O1, "z/z", "9"))>>)>>]
Comp(ms, rules) == [mods |-> ms, acl |-> (T1 :> "ext") @@ (T2 :> "int"), imports |-> (T1 :> <<>>) @@ (T2 :> <<>>), files |-> <<>>, decoder |-> TRUE, rules |-> rules]
Comps == << Comp(<<RealRbac, One, Two>>, <<>>),
            Comp(<<Early, Two, One, RealRbac>>, <<>>),
            Comp(<<One, [Two EXCEPT !.authz = TRUE]>>, <<[verb |-> "Create", res |-> O2, how |-> "deny"], [verb |-> "Deliver", res |-> T2, how |-> "deny-err"]>>),
            Comp(<<Two, One>>, <<>>),
            Comp(<<Two, [One EXCEPT !.gen = Gen("g1", <<Act("create", O1, "z/z", "1")>>)]>>, <<>>) >>

------------------------------------------------------------------------------
(* what can be asked *)
M1(h, as) == [st |-> T1, plan |-> (h :> as)]
M2(h, as) == [st |-> T2, plan |-> (h :> as)]
P0(st)    == [st |-> st, plan |-> NoPlan]
Dlv(m, imp) == [a |-> "deliver", m |-> m, imp |-> imp, sw |-> FALSE]
Ask(id, del, cr) == [st |-> MsgCreateRole, role |-> [id |-> id, gets |-> <<>>, lists |-> <<>>, creates |-> cr, updates |-> <<>>, deletes |-> <<>>, delivers |-> del]]
Bnd(id, s) == [st |-> MsgBindRole, id |-> id, subject |-> s]

Basic == { P0(T1), P0(T2), P0("no.Such"),
           M1("x1", <<Act("create", O1, "x", "1")>>), M1("x1", <<Act("create", O2, "x", "1")>>), M1("x1", <<Sw(Act("create", O2, "x", "1")), Act("upsert", O1, "x", "2")>>),
           M1("x1", <<Dlv(P0(T2), <<>>)>>), M1("x1", <<Dlv(M2("x2", <<Act("upsert", O2, "x", "2")>>), <<>>), FailAs("exists")>>),
           M1("x1", <<Sw(Dlv(M2("q1", <<FailAs("notfound")>>), <<>>)), Act("upsert", O1, "x", "1")>>), M1("x1", <<Sw(Dlv(P0(T1), <<>>))>>),
           M1("x1", <<Dlv(P0(T2), <<"u1">>)>>), M1("x1", <<Dlv(P0(T2), <<"m2", "u2">>)>>),
           M1("a1", <<FailAs("")>>), M1("a2", <<FailAs("exists")>>), M1("p2", <<FailAs("")>>), M1("p2", <<Act("upsert", O2, "x", "1")>>), M1("x1", <<FailAs("condition")>>),
           M1("x1", <<Act("delete", O1, "z/z", "")>>), M1("x1", <<[a |-> "panic"]>>),
           M2("q1", <<FailAs("")>>), M2("x2", <<Act("create", O2, "x", "1")>>) }
Rolish == { Ask("r1", <<T2>>, <<>>), Ask("r1", <<T1, "no.Such">>, <<>>), Ask("r1", <<T1>>, <<"no.Such">>), Ask("", <<>>, <<>>), Ask("r2", <<T1, T2>>, <<O1>>),
            [st |-> MsgCreateRole], Bnd("r1", "u1"), Bnd("r2", "u1"), Bnd("external_account", "u2"), Bnd("no", "u2"), Bnd("r1", "m2"), Bnd("r1", "") }
Msg1 == Basic \cup Rolish
Pairs == {<<a, b>> : a \in {M1("x1", <<Act("upsert", O1, "x", "3")>>), P0(T1), Ask("r2", <<T2>>, <<>>)},
                     b \in {P0(T2), M1("x1", <<FailAs("")>>), M1("a1", <<FailAs("")>>), M1("x1", <<Act("create", O1, "x", "1")>>), Bnd("r2", "u2")}}
Users == {<<"u1">>, <<"u1", "u2">>, <<"m1">>, <<"rbac">>}
TxOf(us, ms, plan, check) == [op |-> "tx", users |-> us, msgs |-> ms, plan |-> plan, check |-> check, garbage |-> FALSE]
Txs == {TxOf(us, <<m>>, NoPlan, FALSE) : us \in Users, m \in Msg1}
       \cup {TxOf(<<"u1">>, <<m>>, NoPlan, TRUE) : m \in Basic}
       \cup {TxOf(<<"m1">>, <<m>>, "aa1" :> as, TRUE) : m \in {P0(T1), M1("a1", <<FailAs("")>>)}, as \in {<<FailAs("")>>, <<[a |-> "panic"]>>}}
       \cup {TxOf(us, p, NoPlan, FALSE) : us \in {<<"u1">>, <<"rbac", "m1">>, <<"m1">>}, p \in Pairs}
       \cup {TxOf(<<"m1">>, <<m>>, h :> as, FALSE) : m \in {P0(T1), M1("x1", <<FailAs("")>>), M1("x1", <<Act("upsert", O1, "y", "1")>>)}, h \in {"aa1", "aa2", "pa1"}, as \in {<<FailAs("notfound")>>}}
       \cup {TxOf(<<"m1">>, <<m>>, "pa1" :> <<Act("upsert", O1, "y", "2")>>, FALSE) : m \in {P0(T1), M1("x1", <<FailAs("")>>), M1("a1", <<FailAs("")>>)}}
Calls_ == {[op |-> "call", users |-> us, m |-> m, skip |-> s] : us \in {<<"m1">>, <<"u1">>}, m \in Basic, s \in BOOLEAN}
Others == {[op |-> "again"], [op |-> "toggle", on |-> TRUE], [op |-> "toggle", on |-> FALSE]}
Menu == Txs \cup Others \cup Calls_

(* what is recorded of an operation *)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Recorded(ev) == [i \in DOMAIN ev |-> [ev[i] EXCEPT !.u = Listed(@)]]
Class(e) == IF e = "panic" THEN "ok" ELSE ClassOf(e)
ListsOf(m) == [i \in 1 .. 4 |-> LET v == <<"", "1", "2", "3">>[i] IN [v |-> v, ids |-> IF Bug = "lists-nothing" THEN <<>> ELSE Listed({id \in DOMAIN m : m[id] = v})]]
Perform(s, o) ==
    LET R == Result(s, o, Bug)
        L == o @@ [ev |-> Recorded(R.ev), post |-> [objs |-> R.objs, roles |-> R.roles, binds |-> R.binds, lists |-> [t \in DOMAIN R.objs |-> ListsOf(R.objs[t])]], panic |-> IF R.err = "panic" /\ o.op # "tx" THEN "told" ELSE ""]
    IN  CASE o.op = "tx"      -> L @@ [code |-> Code(R.err), logged |-> R.err # ""]
          [] o.op = "call"    -> L @@ [r |-> Class(R.err)]
          [] o.op = "genesis" -> L @@ [ok |-> R.err = "", mods |-> [i \in DOMAIN All(s.c) |-> DescOf(All(s.c)[i])], protos |-> <<>>, files |-> <<>>]
          [] OTHER            -> L @@ [ok |-> R.err = ""]

------------------------------------------------------------------------------
(* registering modules one after another *)
Modules == {[Empty(n) EXCEPT !.objs = os, !.handles = hs, !.needs = ns, !.post = ps, !.authz = z] :
               n \in {"m1", ""}, os \in {<<>>, <<Ob(O1)>>, <<[n |-> O2, bad |-> TRUE]>>}, hs \in {<<>>, <<Hd(T1, "x")>>, <<Hd(T2, "x")>>},
               ns \in {<<>>, <<T2>>}, ps \in {<<>>, <<Hd(T1, "q")>>}, z \in BOOLEAN}
Shapes_ == {<<m>> : m \in Modules} \cup {<<m, n>> : m \in Modules, n \in Modules}
           \cup (IF Big THEN {<<m, RealRbac, n>> : m \in {x \in Modules : x.name # ""}, n \in {x \in Modules : x.name # "" /\ x.objs = <<>>}} ELSE {<<RealRbac, m>> : m \in Modules})
RECURSIVE Register(_, _, _)
Register(ms, i, r) ==   \* r = [objs, sts, hooks, needs, authz]
    IF i > Len(ms) THEN (r.hooks \cup (IF Bug = "needs-unchecked" THEN {} ELSE r.needs)) \subseteq r.sts
    ELSE LET m == ms[i]
             os == Rng(Names(m.objs, "n"))
             hs == Rng(Names(m.handles, "st"))
         IN  IF m.name = "" THEN FALSE
             ELSE IF os \cap r.objs # {} \/ \E j \in DOMAIN m.objs : m.objs[j].bad THEN FALSE
             ELSE IF hs \cap r.sts # {} /\ Bug # "handler-replaced" THEN FALSE
             ELSE IF m.authz /\ r.authz THEN FALSE
             ELSE IF Bug = "order-matters" /\ ~(Rng(Names(m.post, "st")) \subseteq r.sts \cup hs) THEN FALSE
             ELSE Register(ms, i + 1, [objs |-> r.objs \cup os, sts |-> r.sts \cup hs, hooks |-> r.hooks \cup Rng(Names(m.pre, "st")) \cup Rng(Names(m.post, "st")),
                                       needs |-> r.needs \cup Rng(m.needs), authz |-> r.authz \/ m.authz])
Built(ms) == Register(All(Comp(ms, <<>>)), 1, [objs |-> {}, sts |-> {}, hooks |-> {}, needs |-> {}, authz |-> FALSE])
BuildOf(ms) == LET c == Comp(ms, <<>>)
               IN  [op |-> "build", c |-> c, ok |-> Built(ms), panic |-> "", ev |-> <<>>, post |-> [objs |-> <<>>, roles |-> <<>>, binds |-> <<>>]]

------------------------------------------------------------------------------
(* files in the order of a depth first walk *)
N == IF Big THEN 5 ELSE 4
RECURSIVE Lists(_)
Lists(S) == IF S = {} THEN {<<>>} ELSE {<<>>} \cup UNION {{<<x>> \o l : l \in Lists(S \ {x})} : x \in S}
RECURSIVE Graphs(_)
Graphs(n) == IF n = 0 THEN {<<>>} ELSE {Append(g, l) : g \in Graphs(n - 1), l \in (IF n <= 3 THEN Lists(1 .. n - 1) ELSE {<<>>} \cup {<<a>> : a \in 1 .. n - 1} \cup {l \in {<<a, b>> : a, b \in 1 .. n - 1} : l[1] # l[2]})}
RECURSIVE Walk(_, _, _, _)
Walk(g, l, i, got) ==   \* the files l[i..] and what they import, after those in got
    IF i > Len(l) THEN got
    ELSE IF l[i] \in Rng(got) /\ Bug # "repeats" THEN Walk(g, l, i + 1, got)
    ELSE IF Bug = "parents-first" THEN Walk(g, l, i + 1, Walk(g, g[l[i]], 1, Append(got, l[i])))
    ELSE IF Bug = "direct-only" THEN Walk(g, l, i + 1, Append(got, l[i]))
    ELSE LET below == Walk(g, g[l[i]], 1, got) IN Walk(g, l, i + 1, IF l[i] \in Rng(below) /\ Bug # "repeats" THEN below ELSE Append(below, l[i]))
DepsOf(g) == [op |-> "deps", graph |-> g, panic |-> "", got |-> Walk(g, g[Len(g)], 1, <<>>)]

------------------------------------------------------------------------------
VARIABLES k, s, last, n
vars == <<k, s, last, n>>
Full(x) == [c |-> Comps[k]] @@ x
Fresh(c) == [objs |-> [t \in UNION {Rng(Names(c.mods[i].objs, "n")) : i \in DOMAIN c.mods} |-> <<>>], roles |-> <<>>, binds |-> <<>>, auth |-> FALSE, inited |-> FALSE]
Static  == PROP \in {"C28", "C30"}
Bound_   == IF Big THEN 3 ELSE 2

Init == /\ k \in DOMAIN Comps
        /\ s = Fresh(Comps[k]) /\ last = [op |-> "none"] /\ n = 0
Cut(x) == [objs |-> x.objs, roles |-> x.roles, binds |-> x.binds, auth |-> x.auth, inited |-> x.inited]
Do(o) == LET L == Perform(Full(s), o) IN last' = L /\ s' = Cut(After(Full(s), L))
Begin == n = 0 /\ \E abci \in BOOLEAN : Do([op |-> "genesis", abci |-> abci])
Ops_  == n > 0 /\ s.inited /\ n <= Bound_ /\ \E o \in Menu : Do(o)
Build == n = 0 /\ PROP = "C28" /\ k = 1 /\ \E ms \in Shapes_ : last' = BuildOf(ms) /\ s' = s
Deps  == n = 0 /\ PROP = "C30" /\ k = 1 /\ \E i \in 1 .. N : \E g \in Graphs(i) : last' = DepsOf(g) /\ s' = s
Next  == (Build \/ Deps \/ Begin \/ (Ops_ /\ ~Static)) /\ n' = (IF last'.op \in {"build", "deps"} THEN 100 ELSE n + 1) /\ k' = k
Spec  == Init /\ [][Next]_vars
View  == <<k, s, n>>

StepHolds == [][Holds(PROP, Full(s), last') = TRUE]_vars

------------------------------------------------------------------------------
(* what follows *)
Real == Rbac(Comps[k])
(* no role or binding disappears or changes; what is bound exists *)
Monotonic == [][(PROP \in {"C15", "C16"} =>
                  /\ \A i \in DOMAIN s.roles : i \in DOMAIN s'.roles /\ s'.roles[i] = s.roles[i]
                  /\ \A u \in DOMAIN s.binds : u \in DOMAIN s'.binds /\ s'.binds[u] = s.binds[u])]_vars
WellBound == PROP \in {"C15", "C16"} /\ Real => \A u \in DOMAIN s.binds : s.binds[u] \in DOMAIN s.roles
(* every role refers to what exists; the roles at genesis give the modules what is theirs *)
WellFormed == PROP \in {"C15", "C16"} /\ Real =>
    /\ \A i \in DOMAIN s.roles : Rng(s.roles[i].delivers) \subseteq Known(All(Comps[k])) /\ Rng(s.roles[i].creates) \subseteq Types(All(Comps[k]))
    /\ s.inited => /\ May(s, "m1", "deliver", T1) /\ May(s, "m1", "deliver", T2) /\ May(s, "m1", "create", O1) /\ ~May(s, "m1", "create", O2)
                   /\ May(s, "m2", "deliver", T2) /\ ~May(s, "m2", "update", O1)
                   /\ Rng(s.roles[External].delivers) = {T1}
(* a failed transaction leaves the objects as they were, but for those its authentication handlers wrote *)
Atomic == [][(PROP \in {"C07", "C08", "C09", "C18"} /\ last'.op = "tx" /\ (last'.code # 0 \/ last'.check) /\ ~("pa1" \in DOMAIN last'.plan) => s' = s)]_vars
(* transactions without further deliveries: the kinds of the handlers which run *)
Rank(e) == CASE e.k = "authadm" -> 1 [] e.k = "adm" -> 2 [] e.k = "postauth" -> 3 [] OTHER -> 4
Stages == [][(PROP \in {"C07", "C08", "C09", "C18"} /\ last'.op = "tx" /\ last'.msgs[1].st \in {T1, T2} /\ (\A i \in DOMAIN last'.ev : last'.ev[i].k # "act" \/ last'.ev[i].st # "deliver") =>
               LET es == SelectSeq(last'.ev, LAMBDA e : e.k \notin {"act", "authz"})
               IN  /\ \A i, j \in DOMAIN es : i < j => Rank(es[i]) <= Rank(es[j])
                   /\ \A i \in DOMAIN es : es[i].k = "exec" /\ es[i].st = T1 => (\E j \in 1 .. i : es[j].k = "adm" /\ es[j].h = "a1") /\ (\E j \in 1 .. i : es[j].k = "pre")
                   /\ last'.check => \A i \in DOMAIN es : es[i].k \in {"authadm", "adm"}
                   /\ Len(last'.msgs) = 1 => \A i, j \in DOMAIN es : i # j => Shape(es[i]) # Shape(es[j]))]_vars
(* on whose behalf handlers run: the users of the transaction, or the module which delivers along with whom it names *)
Behalf == [][(PROP = "C19" /\ last'.op = "tx" =>
               \A i \in DOMAIN last'.ev : last'.ev[i].k \in {"pre", "exec", "post"} =>
                   Rng(last'.ev[i].u) \in {Rng(last'.users), {"m1"}, {"m1", "u1"}, {"m1", "m2", "u2"}})]_vars
(* without the authorization of the module the objects of another are not touched *)
Foreign == [][(PROP = "C19" /\ Real /\ s.auth /\ last'.op \in Dispatches =>
               \A i \in DOMAIN last'.ev : last'.ev[i].k = "act" /\ last'.ev[i].h = "x1" /\ last'.ev[i].st \in Writes /\ last'.ev[i].v = O2 => last'.ev[i].r = "unauthorized")]_vars
(* services leave no trace *)
ServicesRead == [][(PROP = "C29" /\ last'.op = "genesis" =>
               LET c  == Comps[k]
                   c2 == [c EXCEPT !.mods = [i \in DOMAIN c.mods |-> [c.mods[i] EXCEPT !.svcs = <<>>]]]
                   R  == Result([c |-> c2] @@ s, [op |-> "genesis", abci |-> last'.abci], "none")
               IN  s'.objs = R.objs /\ s'.roles = R.roles)]_vars
=============================================================================
