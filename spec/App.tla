-------------------------------- MODULE App --------------------------------
(***************************************************************************)
(* Applications composed of modules: what may be composed (Accept), what   *)
(* genesis does, how state transitions are dispatched to the handlers of   *)
(* the modules, on whose behalf modules act, and what roles allow.         *)
(*                                                                         *)
(* A composition c is                                                      *)
(*   mods   sequence of modules [name, real, objs, handles, adm, pre, post,*)
(*          needs, authadm, postauth, svcs, authz, gen]; real stands for   *)
(*          the rbac module of the repository                              *)
(*   acl    transition -> "ext", "int" or "none"                           *)
(*   rules  what the recording authorizer does not allow                   *)
(*   decoder, files, imports                                               *)
(* A message is [st, plan] where the plan tells every handler what to do;  *)
(* handlers are made up and record each call. The state is                 *)
(*   objs   type -> id -> value                                            *)
(*   roles  id -> [gets, lists, creates, updates, deletes, delivers]       *)
(*   binds  subject -> role id                                             *)
(*   auth, inited    authorization is enabled, genesis has been done       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s)  == {s[i] : i \in DOMAIN s}
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE Flat(_, _)
Flat(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Flat(s, i + 1)
Concat(s) == Flat(s, 1)
Has(r, f) == f \in DOMAIN r

MsgCreateRole == "tmos.core.rbac.v1alpha1.MsgCreateRole"
MsgBindRole   == "tmos.core.rbac.v1alpha1.MsgBindRole"
MsgCreateDesc == "tmos.runtime.v1alpha1.CreateModuleDescriptors"
MsgInitChain  == "tmos.abci.v1alpha1.MsgSetInitChain"
Role          == "tmos.core.rbac.v1alpha1.Role"
Binding       == "tmos.core.rbac.v1alpha1.RoleBinding"
External      == "external_account"
Runtime       == "system:runtime"
Abci          == "system:abci"

A(s) == "tmos.abci.v1alpha1." \o s
NoGen == [has |-> FALSE, h |-> "", acts |-> <<>>]
H(st) == [st |-> st, h |-> "real"]
Mod(n, os, hs) == [name |-> n, real |-> TRUE, objs |-> [i \in DOMAIN os |-> [n |-> os[i], bad |-> FALSE]], handles |-> [i \in DOMAIN hs |-> H(hs[i])],
                   adm |-> <<>>, pre |-> <<>>, post |-> <<>>, needs |-> <<>>, authadm |-> <<>>, postauth |-> <<>>, svcs |-> <<>>, authz |-> FALSE, gen |-> NoGen]
RuntimeMod == Mod(Runtime, <<"tmos.runtime.v1alpha1.ModuleDescriptors">>, <<MsgCreateDesc>>)
AbciMod == Mod(Abci, <<A("Stage"), A("BeginBlockState"), A("DeliverTxState"), A("CheckTxState"), A("InitChainInfo"), A("EndBlockState"), A("CurrentBlock"), A("ValidatorUpdates")>>,
               <<MsgInitChain, A("MsgSetCheckTxState"), A("MsgSetBeginBlockState"), A("MsgSetDeliverTxState"), A("MsgSetEndBlockState"), A("MsgSetValidatorUpdates")>>)
RbacMod == [Mod("rbac", <<Role, Binding, "tmos.core.rbac.v1alpha1.Params">>, <<MsgCreateRole, MsgBindRole>>) EXCEPT
              !.handles = <<[st |-> MsgCreateRole, h |-> "rbac:create"], [st |-> MsgBindRole, h |-> "rbac:bind"]>>,
              !.adm = <<[st |-> MsgCreateRole, h |-> "rbac:creatable"], [st |-> MsgBindRole, h |-> "rbac:bindable"]>>,
              !.post = <<[st |-> MsgCreateDesc, h |-> "rbac:init"]>>,
              !.authz = TRUE]
Rbac(c) == \E i \in DOMAIN c.mods : c.mods[i].real
All(c)  == <<RuntimeMod, AbciMod>> \o [i \in DOMAIN c.mods |-> IF c.mods[i].real THEN RbacMod ELSE c.mods[i]]

Each(ms, k) == Concat([i \in DOMAIN ms |-> ms[i][k]])
Names(s, k) == [i \in DOMAIN s |-> s[i][k]]
Known(ms)   == Rng(Names(Each(ms, "handles"), "st"))
Types(ms)   == Rng(Names(Each(ms, "objs"), "n"))
Distinct(s) == Cardinality(Rng(s)) = Len(s)
Acl(c, st)  == IF st \in DOMAIN c.acl THEN c.acl[st] ELSE "int"

------------------------------------------------------------------------------
(* What can be composed *)

Accept(c) ==
    LET ms == All(c) IN
    /\ \A i \in DOMAIN ms : ms[i].name # ""
    /\ Distinct(Names(Each(ms, "objs"), "n"))
    /\ \A i \in DOMAIN Each(ms, "objs") : ~Each(ms, "objs")[i].bad
    /\ Distinct(Names(Each(ms, "handles"), "st"))
    /\ Rng(Names(Each(ms, "pre"), "st")) \subseteq Known(ms)
    /\ Rng(Names(Each(ms, "post"), "st")) \subseteq Known(ms)
    /\ Rng(Each(ms, "needs")) \subseteq Known(ms)
    /\ Cardinality({i \in DOMAIN ms : ms[i].authz}) <= 1

------------------------------------------------------------------------------
(* Dispatching. S is [objs, roles, binds, ev, err]; x is what does not change *)
(* during an operation: [c, ms, auth, bug].                                   *)

Ev(k, h, st, u, r, v) == [k |-> k, h |-> h, st |-> st, u |-> u, r |-> r, v |-> v]
Log1(S, e) == [S EXCEPT !.ev = Append(@, e)]
Fail(S, e) == [S EXCEPT !.err = e]
Start(st)  == [objs |-> st.objs, roles |-> st.roles, binds |-> st.binds, ev |-> <<>>, err |-> ""]

VerbField(v) == CASE v = "Create" -> "creates" [] v = "Update" -> "updates" [] v = "Delete" -> "deletes"
                  [] v = "Get" -> "gets" [] v = "List" -> "lists" [] v = "Deliver" -> "delivers"
Bound(S, us) == \A u \in us : u \in DOMAIN S.binds /\ S.binds[u] \in DOMAIN S.roles
Allows(S, us, verb, res) == Bound(S, us) /\ \E u \in us : res \in Rng(S.roles[S.binds[u]][VerbField(verb)])

HasAuthz(x) == \E i \in DOMAIN x.c.mods : x.c.mods[i].authz
Denied(c, verb, res) == \E i \in DOMAIN c.rules : c.rules[i].verb = verb /\ c.rules[i].res = res
(* is the access granted? S.err tells *)
Authorize(x, S, us, verb, res) ==
    IF ~x.auth THEN S
    ELSE IF Rbac(x.c) THEN (IF Allows(S, us, verb, res) \/ (x.bug = "no-authorization" /\ verb # "Deliver") THEN S ELSE Fail(S, "unauthorized"))
    ELSE IF HasAuthz(x) THEN LET S1 == Log1(S, Ev("authz", "", res, us, "", verb))
                             IN  IF Denied(x.c, verb, res) THEN Fail(S1, "unauthorized") ELSE S1
    ELSE S

ClassOf(e) == IF e = "" THEN "ok" ELSE e

(* writing an object *)
Write(x, S, mod, a) ==
    LET verb == CASE a.a = "create" -> "Create" [] a.a \in {"update", "upsert"} -> "Update" [] a.a = "delete" -> "Delete"
        S0 == Authorize(x, S, {mod}, verb, a.o)
        m  == IF a.o \in DOMAIN S.objs THEN S.objs[a.o] ELSE <<>>
        put == [S0 EXCEPT !.objs = Put(@, a.o, Put(m, a.id, a.v))]
        creating(T) == LET T1 == Authorize(x, T, {mod}, "Create", a.o)
                       IN  IF T1.err # "" THEN T1 ELSE [T1 EXCEPT !.objs = Put(@, a.o, Put(m, a.id, a.v))]
    IN  IF S0.err # "" THEN S0
        ELSE IF a.o \notin DOMAIN S.objs \/ a.id = "" THEN Fail(S0, "err")
        ELSE CASE a.a = "create" -> IF a.id \in DOMAIN m THEN Fail(S0, "exists") ELSE put
               [] a.a = "update" -> IF a.id \in DOMAIN m THEN put ELSE Fail(S0, "notfound")
               [] a.a = "upsert" -> IF a.id \in DOMAIN m THEN put ELSE creating(S0)
               [] a.a = "delete" -> IF a.id \in DOMAIN m THEN [S0 EXCEPT !.objs = Put(@, a.o, Del(m, a.id))] ELSE Fail(S0, "notfound")

Writes == {"create", "update", "upsert", "delete"}

Plan(msg, h) == IF Has(msg, "plan") /\ Has(msg.plan, h) THEN msg.plan[h] ELSE <<>>

RoleOf(r) == [gets |-> r.gets, lists |-> r.lists, creates |-> r.creates, updates |-> r.updates, deletes |-> r.deletes, delivers |-> r.delivers]
Creatable(x, S, msg) ==
    /\ Has(msg, "role") /\ msg.role.id # "" /\ msg.role.id \notin DOMAIN S.roles
    /\ x.described                  \* before genesis nothing is known to refer to
    /\ x.bug # "any-resource" =>
       /\ \A f \in {"gets", "lists", "creates", "updates", "deletes"} : Rng(msg.role[f]) \subseteq Types(x.ms)
       /\ Rng(msg.role.delivers) \subseteq Known(x.ms)
CreateRole(x, S, msg) ==
    LET S1 == Authorize(x, S, {"rbac"}, "Create", Role) IN
    IF S1.err # "" THEN S1
    ELSE IF ~Has(msg, "role") THEN Fail(S1, "err")
    ELSE IF msg.role.id = "" THEN Fail(S1, "err")
    ELSE IF msg.role.id \in DOMAIN S.roles THEN Fail(S1, "exists")
    ELSE [S1 EXCEPT !.roles = Put(@, msg.role.id, RoleOf(msg.role))]
BindRole(x, S, msg) ==
    LET S1 == Authorize(x, S, {"rbac"}, "Create", Binding) IN
    IF S1.err # "" THEN S1
    ELSE IF msg.subject = "" THEN Fail(S1, "err")
    ELSE IF msg.subject \in DOMAIN S.binds /\ x.bug # "rebind" THEN Fail(S1, "exists")
    ELSE [S1 EXCEPT !.binds = Put(@, msg.subject, msg.id)]

(* the handlers of the given kind for the transition, in the order of the modules, with their modules *)
Handlers(ms, k, st) == Concat([i \in DOMAIN ms |-> SelectSeq([j \in DOMAIN ms[i][k] |-> [mod |-> ms[i].name, st |-> ms[i][k][j].st, h |-> ms[i][k][j].h]],
                                                             LAMBDA r : r.st = st)])

SetOf(s) == Rng(s)
NoPlan == [h \in {} |-> <<>>]
RoleMsg(r)   == [st |-> MsgCreateRole, plan |-> NoPlan, role |-> r]
BindMsg(s, r) == [st |-> MsgBindRole, plan |-> NoPlan, id |-> r, subject |-> s]
ModuleRole(m) == LET os == Names(m.objs, "n") IN
    [id |-> m.name \o "-role", gets |-> os, lists |-> os, creates |-> os, updates |-> os, deletes |-> os, delivers |-> Names(m.handles, "st") \o m.needs]
ExternalRole(c, ms) == [id |-> External, gets |-> <<>>, lists |-> <<>>, creates |-> <<>>, updates |-> <<>>, deletes |-> <<>>,
                        delivers |-> SelectSeq(Names(Each(ms, "handles"), "st"), LAMBDA s : Acl(c, s) = "ext")]

RECURSIVE Acts(_, _, _, _, _, _), Deliver(_, _, _, _, _), Run(_, _, _, _, _, _, _), InitRoles(_, _, _)

(* what handler h of module mod does; S.err is the error it returns *)
Acts(x, S, mod, h, acts, i) ==
    IF i > Len(acts) THEN S
    ELSE LET a == acts[i]
             after(T, r, us, v) ==       \* the action has been done, with this result
                LET T1 == Log1([T EXCEPT !.err = ""], Ev("act", h, a.a, us, r, v))
                IN  IF r # "ok" /\ ~a.sw THEN Fail(T1, r) ELSE Acts(x, T1, mod, h, acts, i + 1)
         IN  CASE a.a = "fail"  -> Fail(S, IF a.how = "" THEN "err" ELSE a.how)
               [] a.a = "panic" -> Fail(S, "panic")
               [] a.a \in Writes -> IF mod = "service" /\ x.bug # "service-writes" THEN after(S, "err", {}, a.o)
                                    ELSE LET T == Write(x, S, mod, a) IN after(T, ClassOf(T.err), {}, a.o)
               [] a.a \in {"get", "getat"} ->
                    IF a.a = "getat" /\ a.at # 0 THEN after(S, "err", {}, "")
                    ELSE IF a.o \notin DOMAIN S.objs \/ a.id = "" THEN after(S, "err", {}, "")
                    ELSE IF a.id \in DOMAIN S.objs[a.o] THEN after(S, "ok", {}, S.objs[a.o][a.id])
                    ELSE after(S, IF mod = "service" THEN "err" ELSE "notfound", {}, "")
               [] a.a \in {"listv", "listat"} ->
                    LET found == IF a.o \in DOMAIN S.objs THEN {id \in DOMAIN S.objs[a.o] : S.objs[a.o][id] = a.v} ELSE {}
                    IN  IF (a.a = "listat" /\ a.at # 0) \/ found = {} THEN after(S, "err", {}, "") ELSE after(S, "ok", found, "")
               [] a.a = "deliver" ->
                    IF mod = "service" THEN after(S, "err", {}, a.m.st)
                    ELSE LET us == (IF x.bug = "impersonation" /\ a.imp # <<>> THEN {} ELSE {mod}) \cup Rng(a.imp)
                             T == Deliver(x, S, us, a.m, FALSE)
                         IN  IF T.err = "panic" THEN T ELSE after(T, ClassOf(T.err), {}, a.m.st)

(* runs the handlers hs from the i-th on; k is their kind *)
Run(x, S, k, hs, i, us, msg) ==
    IF i > Len(hs) THEN S
    ELSE LET g == hs[i]
             S1 == CASE g.h = "real"           -> S
                     [] g.h = "rbac:creatable" -> IF Creatable(x, S, msg) THEN S ELSE Fail(S, "err")
                     [] g.h = "rbac:bindable"  -> IF msg.id # "" /\ msg.id \in DOMAIN S.roles THEN S ELSE Fail(S, "err")
                     [] g.h = "rbac:create"    -> CreateRole(x, S, msg)
                     [] g.h = "rbac:bind"      -> BindRole(x, S, msg)
                     [] g.h = "rbac:init"      -> InitRoles(x, S, 1)
                     [] OTHER -> Acts(x, Log1(S, Ev(k, g.h, msg.st, us, "", "")), g.mod, g.h, Plan(msg, g.h), 1)
             fails == S1.err # "" /\ ~(x.bug = "ignores-" \o k /\ S1.err # "panic")
         IN  IF fails THEN S1 ELSE Run(x, [S1 EXCEPT !.err = ""], k, hs, i + 1, us, msg)

Admit(x, S, us, msg) ==
    IF msg.st \notin Known(x.ms) THEN Fail(S, "err")
    ELSE LET T == Run(x, S, "adm", Handlers(x.ms, "adm", msg.st), 1, us, msg)
         IN  IF T.err \in {"", "panic"} THEN T ELSE Fail(T, "badrequest")

Deliver(x, S, us, msg, skip) ==
    LET S1 == IF skip THEN S ELSE Admit(x, S, us, msg)
    IN  IF S1.err # "" THEN S1 ELSE
        LET S2 == Authorize(x, S1, us, "Deliver", msg.st) IN
        IF S2.err # "" THEN S2 ELSE
        IF msg.st \notin Known(x.ms) THEN Fail(S2, "err") ELSE
        LET hs(k) == [i \in DOMAIN Handlers(x.ms, k, msg.st) |-> Handlers(x.ms, k, msg.st)[i]]
            S3 == Run(x, S2, "pre", hs("pre"), 1, us, msg)
        IN  IF S3.err # "" THEN S3 ELSE
            LET S4 == Run(x, S3, "exec", hs("handles"), 1, us, msg)
            IN  IF S4.err # "" THEN S4 ELSE Run(x, S4, "post", hs("post"), 1, us, msg)

(* the roles at genesis: one for every module, bound to it, and one for all external accounts *)
InitRoles(x, S, i) ==
    IF i > Len(x.ms) THEN Deliver(x, S, {"rbac"}, RoleMsg(IF x.bug = "all-external" THEN [ExternalRole(x.c, x.ms) EXCEPT !.delivers = Names(Each(x.ms, "handles"), "st")]
                                                                 ELSE ExternalRole(x.c, x.ms)), FALSE)
    ELSE LET m == x.ms[i] IN
         IF \E j \in DOMAIN m.handles : Acl(x.c, m.handles[j].st) = "none" THEN Fail(S, "err")
         ELSE LET r == IF x.bug = "no-needs" THEN [m EXCEPT !.needs = <<>>] ELSE m
                  S1 == Deliver(x, S, {"rbac"}, RoleMsg(ModuleRole(r)), FALSE)
              IN  IF S1.err # "" THEN S1
                  ELSE LET S2 == Deliver(x, S1, {"rbac"}, BindMsg(m.name, m.name \o "-role"), FALSE)
                       IN  IF S2.err # "" THEN S2 ELSE InitRoles(x, S2, i + 1)

------------------------------------------------------------------------------
(* Operations: the state, events and errors they leave *)

X(c, st, bug) == [c |-> c, ms |-> All(c), auth |-> st.auth, described |-> st.inited, bug |-> bug]

Reverted(S, T) == [T EXCEPT !.objs = S.objs, !.roles = S.roles, !.binds = S.binds]

RECURSIVE Admissions(_, _, _, _, _), Msgs(_, _, _, _, _), TxHandlers(_, _, _, _, _, _), Genesis(_, _, _, _), Services(_, _, _, _), Imports(_, _, _, _)

TxHandlers(x, S, k, hs, i, tx) ==
    IF i > Len(hs) THEN S
    ELSE LET g == hs[i]
             T == Acts(x, Log1(S, Ev(k, g.h, "", Rng(tx.users), "", "")), g.mod, g.h, Plan(tx, g.h), 1)
         IN  IF T.err # "" THEN Fail(T, IF T.err = "panic" THEN "panic" ELSE "badrequest")
             ELSE TxHandlers(x, T, k, hs, i + 1, tx)
TxHs(ms, k) == Concat([i \in DOMAIN ms |-> [j \in DOMAIN ms[i][k] |-> [mod |-> ms[i].name, h |-> ms[i][k][j]]]])

Admissions(x, S, us, msgs, i) ==
    IF i > Len(msgs) THEN S
    ELSE LET T == Admit(x, S, us, msgs[i]) IN IF T.err # "" THEN T ELSE Admissions(x, T, us, msgs, i + 1)
Msgs(x, S, us, msgs, i) ==
    IF i > Len(msgs) THEN S
    ELSE LET T == Deliver(x, S, us, msgs[i], x.bug # "admits-again")
         IN  IF T.err # "" THEN T ELSE Msgs(x, T, us, msgs, i + 1)

Tx(c, st, tx, bug) ==
    LET x == X(c, st, bug)
        S == Start(st)
        us == Rng(tx.users)
    IN  IF tx.garbage \/ ~c.decoder THEN Fail(S, "err") ELSE
        LET S1 == TxHandlers(x, S, "authadm", TxHs(x.ms, "authadm"), 1, tx) IN
        IF S1.err # "" THEN Reverted(S, S1) ELSE
        LET S2 == Admissions(x, S1, us, IF bug = "loose-check" /\ tx.check THEN <<>> ELSE tx.msgs, 1) IN
        IF S2.err # "" \/ (tx.check /\ bug # "check-writes") THEN Reverted(S, S2) ELSE
        LET S3 == TxHandlers(x, S2, "postauth", TxHs(x.ms, "postauth"), 1, tx) IN
        IF S3.err # "" THEN Reverted(S2, S3) ELSE
        LET S4 == Msgs(x, S3, us, tx.msgs, 1) IN
        IF S4.err # "" THEN (IF bug = "keeps-effects" THEN S4 ELSE IF bug = "silent" THEN [Reverted(S3, S4) EXCEPT !.err = ""] ELSE Reverted(S3, S4)) ELSE S4

Call(c, st, L, bug) == Deliver(X(c, st, bug), Start(st), Rng(L.users), L.m, L.skip)

Genesis(x, S, ms, i) ==
    IF i > Len(ms) THEN S
    ELSE IF ~ms[i].gen.has THEN Genesis(x, S, ms, i + 1)
    ELSE LET g == ms[i].gen
             T == Acts(x, Log1(S, Ev("genesis", g.h, "", {}, "", "")), ms[i].name, g.h, g.acts, 1)
         IN  IF T.err # "" THEN T ELSE Genesis(x, T, ms, i + 1)
Services(x, S, svcs, i) ==
    IF i > Len(svcs) THEN S
    ELSE LET T == Acts(x, Log1(S, Ev("start", svcs[i].h, "", {}, "", "true")), "service", svcs[i].h, svcs[i].acts, 1)
         IN  IF T.err # "" THEN T ELSE Services(x, T, svcs, i + 1)

InitGenesis(c, st, viaAbci, bug) ==
    LET x == [X(c, st, bug) EXCEPT !.described = TRUE]
        S1 == Deliver(x, Start(st), {Runtime}, [st |-> MsgCreateDesc, plan |-> NoPlan], FALSE)
    IN  IF S1.err # "" THEN S1 ELSE
        LET S2 == Genesis(x, S1, IF bug = "genesis-order" THEN [i \in DOMAIN x.ms |-> x.ms[Len(x.ms) + 1 - i]] ELSE x.ms, 1)
        IN  IF S2.err # "" THEN S2 ELSE
            LET S3 == Services(x, S2, IF bug = "last-services" THEN Each(<<x.ms[Len(x.ms)]>>, "svcs") ELSE Each(x.ms, "svcs"), 1) IN
            IF S3.err # "" \/ ~viaAbci THEN S3 ELSE Deliver(x, S3, {Abci}, [st |-> MsgInitChain, plan |-> NoPlan], FALSE)

Imports(x, S, i, n) ==
    IF i > Len(x.ms) THEN S
    ELSE IF ~x.ms[i].gen.has THEN Imports(x, S, i + 1, n)
    ELSE LET g == x.ms[i].gen
             T == Acts(x, Log1(S, Ev("import", g.h, "", {}, "", n[x.ms[i].name])), x.ms[i].name, g.h, g.acts, 1)
         IN  IF T.err # "" THEN T ELSE Imports(x, T, i + 1, n)

Code(e) == CASE e = "" -> 0 [] e = "badrequest" -> 400 [] e = "notfound" -> 404 [] e = "exists" -> 409 [] e = "condition" -> 412 [] OTHER -> 1

(* what an operation does according to the specification *)
Result(st, L, bug) ==
    CASE L.op = "tx"      -> Tx(st.c, st, L, bug)
      [] L.op = "call"    -> Call(st.c, st, L, bug)
      [] L.op = "genesis" -> InitGenesis(st.c, st, L.abci, bug)
      [] L.op = "import"  -> IF L.bad THEN Fail(Start(st), "err")
                             ELSE Imports(X(st.c, st, bug), Start(st), 1, L.raw)
      [] L.op = "again"   -> IF st.inited THEN Fail(Start(st), "err") ELSE Start(st)
      [] L.op = "toggle"  -> Start(st)

------------------------------------------------------------------------------
(* Dependencies of files: g is a sequence of lists of imports of earlier files *)
RECURSIVE Closure(_, _)
Closure(g, S) == LET T == S \cup UNION {Rng(g[i]) : i \in S} IN IF T = S THEN S ELSE Closure(g, T)
DepsRight(g, got, i) ==         \* got: the dependencies of file i
    /\ Rng(got) = Closure(g, Rng(g[i]))
    /\ Distinct(got)
    /\ \A a \in DOMAIN got : \A d \in Rng(g[got[a]]) : \E b \in 1 .. a - 1 : got[b] = d

------------------------------------------------------------------------------
(* Properties of one recorded operation L in state st *)

(* of lists only what they contain is compared *)
Norm(e) == [k |-> e.k, h |-> e.h, st |-> e.st, u |-> IF e.k = "act" /\ e.st \in {"listv", "listat"} THEN Rng(e.u) ELSE Rng(e.u),
            r |-> IF e.k = "act" /\ e.st = "listv" /\ e.u = <<>> THEN "err" ELSE e.r, v |-> e.v]
Events(L) == [i \in DOMAIN L.ev |-> Norm(L.ev[i])]
Shape(e)  == <<e.k, e.h, e.st>>
Who(e)    == <<e.k, e.h, e.st, e.u, e.r, e.v>>
Shapes(es, ks) == LET s == SelectSeq(es, LAMBDA e : e.k \in ks) IN [i \in DOMAIN s |-> Shape(s[i])]
Calls     == {"adm", "pre", "exec", "post", "authadm", "postauth", "authz", "genesis", "start", "import", "act"}

RoleSet(r) == [f \in DOMAIN r |-> Rng(r[f])]
SameRoles(a, b) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : RoleSet(a[i]) = RoleSet(b[i])
OncePer(r) == \A f \in DOMAIN r : Distinct(r[f])

Succeeded(L) == CASE L.op = "tx" -> L.panic = "" /\ L.code = 0 [] L.op = "call" -> L.panic = "" /\ L.r = "ok" [] OTHER -> L.ok
Ops == {"tx", "call", "genesis", "again", "import", "toggle"}
Dispatches == {"tx", "call"}

(* listing by a value gives the objects with the value *)
Listings(L) == \A t \in DOMAIN L.post.lists : \A i \in DOMAIN L.post.lists[t] :
    LET q == L.post.lists[t][i]
        m == IF t \in DOMAIN L.post.objs THEN L.post.objs[t] ELSE <<>>
    IN  Distinct(q.ids) /\ Rng(q.ids) = {id \in DOMAIN m : m[id] = q.v}
(* C07: transactions leave everything behind or, if they fail, only what authentication does *)
C07(st, L) == L.op = "tx" =>
    LET R == Result(st, L, "none")
    IN  /\ L.post.objs = R.objs /\ SameRoles(L.post.roles, R.roles) /\ L.post.binds = R.binds
        /\ Listings(L)
        \* in words: a transaction which fails before its messages are delivered, or is only checked, leaves nothing
        /\ L.check \/ (L.code # 0 /\ \A i \in DOMAIN L.ev : L.ev[i].k \in {"authadm", "adm", "authz"}) =>
             L.post.objs = st.objs /\ SameRoles(L.post.roles, st.roles) /\ L.post.binds = st.binds

(* C08: checking a transaction authenticates and admits it, and leaves nothing behind *)
C08(st, L) == L.op = "tx" /\ L.check =>
    /\ L.panic = "" /\ L.code = Code(Result(st, L, "none").err)
    /\ L.post.objs = st.objs /\ SameRoles(L.post.roles, st.roles) /\ L.post.binds = st.binds /\ Listings(L)
    /\ \A i \in DOMAIN L.ev : L.ev[i].k \notin {"pre", "exec", "post", "postauth"}

(* C09: whatever its handlers do a transaction is answered, and what fails is told to have failed *)
C09(st, L) == L.op = "tx" =>
    LET R == Result(st, L, "none")
    IN  /\ L.panic = "" /\ (L.code # 0 => L.logged) /\ (R.err # "" => L.code # 0)
        /\ L.garbage => L.code # 0 /\ L.ev = <<>> /\ L.post.objs = st.objs /\ SameRoles(L.post.roles, st.roles) /\ L.post.binds = st.binds

(* C15: after genesis there is exactly one role for each module and one for external accounts *)
C15(st, L) == L.op = "genesis" /\ Rbac(st.c) /\ L.ok =>
    LET ms == All(st.c)
        R  == Result(st, L, "none")
        expected == {ModuleRole(ms[i]) : i \in DOMAIN ms} \cup {ExternalRole(st.c, ms)}
    IN  /\ \A r \in expected : r.id \in DOMAIN L.post.roles /\ RoleSet(L.post.roles[r.id]) = RoleSet(RoleOf(r)) /\ OncePer(L.post.roles[r.id])
        /\ \A i \in DOMAIN ms : ms[i].name \in DOMAIN L.post.binds /\ L.post.binds[ms[i].name] = ms[i].name \o "-role"
        /\ DOMAIN L.post.roles = DOMAIN R.roles /\ L.post.binds = R.binds

(* C16: roles are created and bound exactly as asked for, and nothing else changes them *)
C16(st, L) == L.op \in Dispatches =>
    LET R == Result(st, L, "none")
    IN  /\ SameRoles(L.post.roles, R.roles) /\ L.post.binds = R.binds
        \* in words: no role is changed or removed, no subject is bound again, everything new is well formed
        /\ \A i \in DOMAIN st.roles : i \in DOMAIN L.post.roles /\ RoleSet(L.post.roles[i]) = RoleSet(st.roles[i])
        /\ \A s \in DOMAIN st.binds : s \in DOMAIN L.post.binds /\ L.post.binds[s] = st.binds[s]
        /\ \A i \in DOMAIN L.post.roles \ DOMAIN st.roles : i # "" /\ ((L.op = "call" /\ L.skip) \/ Rng(L.post.roles[i].delivers) \subseteq Known(All(st.c)))
        /\ st.auth /\ Rbac(st.c) /\ ~(L.op = "call" /\ L.skip) => \A s \in DOMAIN L.post.binds \ DOMAIN st.binds : s # "" /\ L.post.binds[s] \in DOMAIN L.post.roles
        /\ (\A i \in DOMAIN (IF L.op = "tx" THEN L.msgs ELSE <<L.m>>) : (IF L.op = "tx" THEN L.msgs ELSE <<L.m>>)[i].st \in {MsgCreateRole, MsgBindRole})
               => Succeeded(L) = (R.err = "")

(* C18: the handlers run in the right order, each once, and the first failure ends the transaction *)
C18(st, L) == L.op \in Dispatches =>
    LET R == Result(st, L, "none")
    IN  /\ L.op = "tx" => L.panic = "" /\ L.code = Code(R.err) /\ (L.code # 0 => L.logged)
        /\ L.op = "call" => (L.panic # "") = (R.err = "panic") /\ (R.err # "panic" => L.r = ClassOf(R.err))
        /\ Shapes(Events(L), Calls) = Shapes(R.ev, Calls)
        /\ L.op = "tx" /\ L.check => L.post.objs = st.objs

(* the handlers of a module, and what it may do according to the roles and bindings of state s *)
HandlersOf(m) == Rng(Names(m.handles, "h")) \cup Rng(Names(m.adm, "h")) \cup Rng(Names(m.pre, "h")) \cup Rng(Names(m.post, "h")) \cup Rng(m.authadm) \cup Rng(m.postauth)
May(s, m, a, o) == m \in DOMAIN s.binds /\ s.binds[m] \in DOMAIN s.roles
                   /\ o \in Rng(s.roles[s.binds[m]][CASE a = "create" -> "creates" [] a = "delete" -> "deletes" [] a = "deliver" -> "delivers" [] OTHER -> "updates"])
(* C19: modules act as themselves and as whom they impersonate, with their own rights *)
C19(st, L) == L.op \in Ops =>
    LET R == Result(st, L, "none")
    IN  /\ Events(L) = R.ev
        /\ L.post.objs = R.objs
        /\ Listings(L)
        \* in words: whatever a module has written it had the right to write
        /\ L.op \in Dispatches /\ st.auth /\ Rbac(st.c) =>
             \A i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].st \in Writes /\ L.ev[i].r = "ok" =>
                 \E j \in DOMAIN st.c.mods : L.ev[i].h \in HandlersOf(st.c.mods[j])
                     /\ (May(st, st.c.mods[j].name, L.ev[i].st, L.ev[i].v) \/ May(L.post, st.c.mods[j].name, L.ev[i].st, L.ev[i].v))

(* C28: compositions are accepted exactly if they are consistent; genesis runs once, in the order of the modules *)
DescOf(m) == [name |-> m.name, objs |-> Names(m.objs, "n"), sts |-> Names(m.handles, "st"), needs |-> m.needs]
C28(st, L) ==
    /\ L.op = "build" => L.panic = "" /\ L.ok = Accept(L.c) /\ (L.ok => L.ev = <<>> /\ \A t \in DOMAIN L.post.objs : L.post.objs[t] = <<>>)
    /\ L.op = "genesis" =>
         LET R == Result(st, L, "none")
         IN  /\ L.ok = (R.err = "")
             /\ Shapes(Events(L), {"genesis"}) = Shapes(R.ev, {"genesis"})
             /\ L.ok => /\ L.mods = [i \in DOMAIN All(st.c) |-> DescOf(All(st.c)[i])]
                        /\ L.post.objs = R.objs
    /\ L.op = "again" /\ st.inited => L.panic = "" /\ ~L.ok /\ L.ev = <<>> /\ L.post.objs = st.objs /\ L.post.roles = st.roles /\ L.post.binds = st.binds
    /\ L.op = "import" => LET R == Result(st, L, "none") IN L.ok = (R.err = "") /\ Events(L) = R.ev /\ L.post.objs = R.objs
    /\ L.op = "tx" /\ ~st.c.decoder => L.panic = "" /\ L.code # 0 /\ L.ev = <<>>

(* C29: extension services start once each after genesis, in order, and can only read *)
Failing(s) == \E i \in DOMAIN s.acts : s.acts[i].a = "fail"
C29(st, L) ==
    /\ L.op = "genesis" =>
         LET R == Result(st, L, "none")
         IN  /\ L.ok = (R.err = "")
             /\ SelectSeq(Events(L), LAMBDA e : e.k = "start" \/ e.k = "act") = SelectSeq(R.ev, LAMBDA e : e.k = "start" \/ e.k = "act")
             /\ L.ok => L.post.objs = R.objs
    /\ L.op = "services" =>
         LET upto == IF \E i \in DOMAIN L.svcs : Failing(L.svcs[i]) THEN CHOOSE i \in DOMAIN L.svcs : Failing(L.svcs[i]) /\ \A j \in 1 .. i - 1 : ~Failing(L.svcs[j])
                     ELSE Len(L.svcs)
         IN  /\ L.panic = ""
             /\ L.ok = ~\E i \in DOMAIN L.svcs : Failing(L.svcs[i])
             /\ [i \in DOMAIN L.started |-> <<L.started[i].k, L.started[i].h, L.started[i].v>>] = [i \in 1 .. upto |-> <<"start", L.svcs[i].h, "true">>]
             /\ {L.stopped[i].h : i \in DOMAIN L.stopped} = {L.svcs[i].h : i \in DOMAIN L.svcs} /\ Len(L.stopped) = Len(L.svcs)
             /\ L.stopok = ~\E i \in DOMAIN L.svcs : L.svcs[i].failstop
    /\ L.op \in {"tx", "call", "again", "toggle"} => \A i \in DOMAIN L.ev : L.ev[i].k \notin {"start", "stop"}

(* C30: files are provided with everything they import, before it is needed *)
C30(st, L) ==
    /\ L.op = "deps" => L.panic = "" /\ DepsRight(L.graph, L.got, Len(L.graph))
    /\ L.op = "genesis" => \A i \in DOMAIN L.protos :
         LET q == L.protos[i]
             n == Len(q.files)
             f == "st/" \o q.st \o ".proto"
         IN  /\ q.name /\ n > 0 /\ q.files[n] = f
             /\ DepsRight(L.files, SubSeq(q.files, 1, n - 1), f)
    /\ L.op = "genesis" => L.ok = (Result(st, L, "none").err = "")

Holds(p, st, L) == CASE p = "C07" -> C07(st, L) [] p = "C08" -> C08(st, L) [] p = "C09" -> C09(st, L)
                     [] p = "C15" -> C15(st, L) [] p = "C16" -> C16(st, L) [] p = "C18" -> C18(st, L) [] p = "C19" -> C19(st, L)
                     [] p = "C28" -> C28(st, L) [] p = "C29" -> C29(st, L) [] p = "C30" -> C30(st, L)

(* the state after L *)
After(st, L) ==
    IF L.op = "build" THEN (IF L.ok THEN [c |-> L.c, objs |-> L.post.objs, roles |-> L.post.roles, binds |-> L.post.binds, auth |-> FALSE, inited |-> FALSE] ELSE st)
    ELSE IF ~Has(L, "post") THEN st
    ELSE LET s1 == [st EXCEPT !.objs = L.post.objs, !.roles = L.post.roles, !.binds = L.post.binds]
         IN  CASE L.op = "genesis" -> [s1 EXCEPT !.inited = L.ok, !.auth = @ \/ (L.ok /\ L.abci)]
               [] L.op = "toggle"  -> [s1 EXCEPT !.auth = L.on]
               [] OTHER -> s1

Depth2(L) == \E i, j \in DOMAIN L.ev : i < j /\ L.ev[i].k = "exec" /\ L.ev[j].k = "exec" /\ \E n \in DOMAIN L.ev : n > j /\ L.ev[n].k = "act" /\ L.ev[n].st = "deliver"
Tags(st, L) ==
    {"app-" \o L.op}
    \cup (IF L.op = "build" THEN {IF L.ok THEN "composed" ELSE "refused-composition"}
              \cup (IF L.ok /\ Rbac(L.c) THEN {"with-rbac"} ELSE {}) \cup (IF L.ok /\ ~Rbac(L.c) THEN {"without-rbac"} ELSE {})
              \cup (IF ~L.c.decoder THEN {"no-decoder"} ELSE {})
              \cup (IF \E i \in DOMAIN L.c.mods : L.c.mods[i].name = "" THEN {"empty-name"} ELSE {})
              \cup (IF ~Distinct(Names(Each(All(L.c), "objs"), "n")) THEN {"object-twice"} ELSE {})
              \cup (IF ~Distinct(Names(Each(All(L.c), "handles"), "st")) THEN {"handler-twice"} ELSE {})
              \cup (IF ~(Rng(Each(All(L.c), "needs")) \subseteq Known(All(L.c))) THEN {"needs-unknown"} ELSE {})
              \cup (IF ~(Rng(Names(Each(All(L.c), "pre"), "st")) \subseteq Known(All(L.c))) THEN {"pre-of-unknown"} ELSE {})
              \cup (IF ~(Rng(Names(Each(All(L.c), "post"), "st")) \subseteq Known(All(L.c))) THEN {"post-of-unknown"} ELSE {})
              \cup (IF Cardinality({i \in DOMAIN All(L.c) : All(L.c)[i].authz}) > 1 THEN {"two-authorizers"} ELSE {})
          ELSE {})
    \cup (IF L.op = "genesis" THEN {IF L.ok THEN "genesis-ok" ELSE "genesis-fails"}
              \cup (IF Rbac(st.c) /\ \E i \in DOMAIN st.c.mods : st.c.mods[i].needs # <<>> THEN {"module-needs"} ELSE {})
              \cup (IF \E i, j \in DOMAIN st.c.mods : i < j /\ st.c.mods[i].gen.has /\ st.c.mods[j].gen.has THEN {"several-genesis"} ELSE {})
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k = "start" THEN {"service-started"} ELSE {})
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].st \in Writes /\ \E j \in 1 .. i : L.ev[j].k = "start" /\ L.ev[j].h = L.ev[i].h THEN {"service-tries-to-write"} ELSE {})
              \cup (IF \E i \in DOMAIN L.protos : Len(L.protos[i].files) > 2 THEN {"several-files"} ELSE {})
          ELSE {})
    \cup (IF L.op \in Dispatches THEN
              {IF Succeeded(L) THEN "dispatch-ok" ELSE "dispatch-fails"}
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].st = "deliver" THEN {"nested-delivery"} ELSE {})
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k \in {"adm", "exec"} /\ Len(L.ev[i].u) > 1 /\ L.op = "tx" /\ Len(L.users) = 1 THEN {"impersonation"} ELSE {})
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].r = "unauthorized" /\ L.ev[i].st \in Writes THEN {"write-not-authorized"} ELSE {})
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].r = "ok" /\ L.ev[i].st \in Writes /\ st.auth THEN {"write-authorized"} ELSE {})
              \cup (IF \E i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].st = "getat" /\ L.ev[i].r = "err" THEN {"read-at-height"} ELSE {})
              \cup {"ran-" \o L.ev[i].k : i \in DOMAIN L.ev}
              \cup (IF DOMAIN L.post.roles # DOMAIN st.roles THEN {"role-created"} ELSE {})
              \cup (IF DOMAIN L.post.binds # DOMAIN st.binds THEN {"role-bound"} ELSE {})
              \cup (IF L.op = "tx" /\ ~Succeeded(L) /\ \E i \in DOMAIN L.msgs : L.msgs[i].st = MsgCreateRole THEN {"role-refused"} ELSE {})
              \cup (IF L.op = "tx" /\ ~Succeeded(L) /\ \E i \in DOMAIN L.msgs : L.msgs[i].st = MsgBindRole THEN {"binding-refused"} ELSE {})
              \cup (IF L.op = "tx" /\ ~Succeeded(L) /\ (\E i \in DOMAIN L.ev : L.ev[i].k = "act" /\ L.ev[i].st \in {"update", "upsert", "delete"} /\ L.ev[i].r = "ok")
                        /\ (\E t \in DOMAIN st.objs : DOMAIN st.objs[t] # {}) THEN {"listing-reverted"} ELSE {})
              \cup (IF L.op = "tx" THEN {"code-" \o ToString(L.code)} ELSE {})
              \cup (IF L.op = "tx" /\ L.check THEN {"app-check"} ELSE {})
              \cup (IF L.op = "tx" /\ L.check /\ L.code # 0 /\ ~L.garbage THEN {"check-refuses"} ELSE {})
              \cup (IF L.op = "tx" /\ st.c.decoder /\ Result(st, L, "none").err = "panic" THEN {IF L.check THEN "check-panics" ELSE "tx-panics"} ELSE {})
              \cup (IF L.op = "tx" /\ ~st.c.decoder THEN {"tx-without-decoder"} ELSE {})
          ELSE {})
    \cup (IF L.op = "call" /\ ~st.inited THEN {"called-before-genesis"} ELSE {})
    \cup (IF L.op = "services" /\ ~L.ok THEN {"start-fails"} ELSE {})
    \cup (IF L.op = "services" /\ ~L.stopok THEN {"stop-fails"} ELSE {})
    \cup (IF L.op = "deps" /\ Len(L.got) > 3 THEN {"several-dependencies"} ELSE {})
    \cup (IF L.op = "deps" /\ \E a \in DOMAIN L.graph : \E b \in Rng(L.graph[a]) : \E d \in Rng(L.graph[a]) : d \in Closure(L.graph, Rng(L.graph[b])) THEN {"diamond"} ELSE {})
=============================================================================
