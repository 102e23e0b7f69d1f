------------------------------ MODULE ChainMC ------------------------------
(* Exhaustive check, on a small instance, that the behaviour of the chain    *)
(* specified in Chain.tla has the properties. Bug plants a known defect in   *)
(* the behaviour ("none": as specified): the property named by PROP has to   *)
(* fail then, which is how the properties themselves are tested.             *)
EXTENDS Chain, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Size == IF IOEnv.SIZE = "small" THEN 2 ELSE 3

None  == [x \in {} |-> 0]
D     == "stake"
Amt(n) == [ok |-> TRUE, c |-> IF n = 0 THEN None ELSE (D :> n)]
BadAmt == [ok |-> FALSE, c |-> None]

S0 == [acc   |-> ("k0" :> [n |-> 0, s |-> 0, pk |-> "k0", self |-> TRUE]) @@
                 ("k1" :> [n |-> 1, s |-> 0, pk |-> "none", self |-> TRUE]),
       next  |-> 2,
       bal   |-> ("k0" :> (D :> 3)) @@ ("k1" :> (D :> 1)),
       bind  |-> ("k0" :> External) @@ ("k1" :> External),
       roles |-> (External :> <<"send">>) @@ ("all" :> <<"send", "setbal", "create", "mkrole", "bindrole", "valset">>),
       canon |-> TRUE, maxMemo |-> 1, maxSigs |-> 2, stage |-> "InitChain", h |-> 0, chain |-> "c",
       bb |-> [hash |-> ""], ebh |-> 0, vu |-> <<>>, rest |-> "", dig |-> <<>>]

Stamp(s) == [s EXCEPT !.dig = <<s.acc, s.next, s.bal, s.bind, s.roles, s.stage, s.h, s.bb, s.ebh, s.vu>>]

Send(f, t, a) == [t |-> "send", from |-> f, to |-> t, amt |-> a]
MsgLists == {<<Send("k0", "k1", Amt(1))>>, <<Send("k0", "k2", Amt(1)), Send("k0", "k0", Amt(2))>>,
             <<Send("k1", "k0", Amt(1)), Send("k0", "k1", Amt(1))>>, <<Send("k0", "k2", BadAmt)>>,
             <<[t |-> "create", addr |-> "k2", pk |-> "none"], [t |-> "setbal", addr |-> "k2", amt |-> Amt(1)]>>,
             <<Send("k0", "k2", Amt(1)), [t |-> "mkrole", id |-> "r"]>>,
             <<[t |-> "bindrole", addr |-> "k2", role |-> "r"]>>,
             <<[t |-> "valset", vu |-> <<"v">>]>>, <<[t |-> "unknown"]>>}
Few      == {<<Send("k0", "k1", Amt(1))>>, <<Send("k1", "k2", Amt(1)), Send("k0", "k2", Amt(3))>>}

Signer(a, s) == [a |-> a, seq |-> s, good |-> TRUE, chain |-> "c", num |-> IF a = "k0" THEN 0 ELSE 1]
Seqs == 0 .. Size - 1
SignerLists == {<<Signer("k0", i)>> : i \in Seqs} \cup {<<Signer("k1", i)>> : i \in Seqs}
               \cup {<<Signer("k0", i), Signer("k1", j)>> : i \in Seqs, j \in Seqs}
Plain(g, m, f) == [env |-> "ok", signers |-> g, msgs |-> m, fee |-> f, payer |-> "", memo |-> 0, tms |-> FALSE, tmv |-> 0]
Faulty(t) == {[t EXCEPT !.signers[Len(t.signers)].good = FALSE], [t EXCEPT !.signers[1].chain = "x"],
              [t EXCEPT !.signers[1].num = 7], [t EXCEPT !.payer = "k1"], [t EXCEPT !.payer = "k2"],
              [t EXCEPT !.memo = 1], [t EXCEPT !.memo = 2], [t EXCEPT !.tms = TRUE],
              [t EXCEPT !.tms = TRUE, !.tmv = 1], [t EXCEPT !.fee = BadAmt], [t EXCEPT !.fee = Amt(9)],
              [t EXCEPT !.env = "fuzz"], [t EXCEPT !.signers = Append(@, Signer("k1", 0))],
              [t EXCEPT !.signers = Append(@, Signer("k2", 0))]}
Base  == {Plain(g, m, f) : g \in SignerLists, m \in Few, f \in {Amt(1)}}
Txs   == {Plain(g, m, f) : g \in SignerLists, m \in MsgLists, f \in {Amt(0), Amt(1)}} \cup UNION {Faulty(t) : t \in Base}

(* a defect: the named demand is not made *)
Mask(st, t) ==
    CASE Bug = "sig" -> [t EXCEPT !.signers = [i \in DOMAIN t.signers |-> [t.signers[i] EXCEPT
                              !.good = TRUE, !.chain = st.chain,
                              !.num = IF t.signers[i].a \in DOMAIN st.acc THEN st.acc[t.signers[i].a].n ELSE @]]]
      [] Bug = "seq" -> [t EXCEPT !.signers = [i \in DOMAIN t.signers |-> [t.signers[i] EXCEPT
                              !.seq = IF t.signers[i].a \in DOMAIN st.acc THEN st.acc[t.signers[i].a].s ELSE @]]]
      [] Bug = "memo" -> [t EXCEPT !.memo = 0]
      [] Bug = "timeout" -> [t EXCEPT !.tms = FALSE]
      [] Bug = "fee" -> IF FeeOk(st, t) THEN t ELSE [t EXCEPT !.fee = Amt(0)]
      [] OTHER -> t
Loose(st, t) == [Sign(st, t) EXCEPT !.bal = IF "k2" \in DOMAIN @ THEN @ ELSE Put(@, "k2", (D :> 1))]
RECURSIVE Partial(_, _, _, _)
Partial(s, g, ms, i) == IF i > Len(ms) THEN s ELSE LET r == DoMsg(s, g, ms[i]) IN IF r.ok THEN Partial(r.s, g, ms, i + 1) ELSE s
Real(st, t0) ==
    LET t == Mask(st, t0)
        d == Deliver(st, t)
    IN  CASE Bug = "partial" /\ d.class = "failed" -> [d EXCEPT !.s = Partial(d.s, SignerSet(t), t.msgs, 1)]
          [] Bug = "mint" /\ d.class = "ok" -> [d EXCEPT !.s = [@ EXCEPT !.bal = Put(@, t.signers[1].a, CAdd(BalOf(d.s, t.signers[1].a), (D :> 1)))]]
          [] Bug = "sequence-kept" /\ d.class = "failed" -> [d EXCEPT !.s = [@ EXCEPT !.acc = st.acc]]
          [] Bug = "authorize-any" /\ d.class = "failed" /\ t.msgs[1].t = "mkrole" -> [d EXCEPT !.class = "ok", !.s.roles = Put(@, "z", <<>>)]
          [] Bug = "renumber" /\ d.class = "ok" -> [d EXCEPT !.s.next = @ + 1]
          [] Bug = "reject-two" /\ Len(t.signers) = 2 -> [class |-> "rejected", s |-> st]
          [] Bug = "steal" /\ d.class = "ok" -> [d EXCEPT !.s.bal = [a \in DOMAIN @ |-> IF a = "k0" THEN Amt(CGet(@["k0"], D) + CGet(BalOf(d.s, "k1"), D)).c ELSE IF a = "k1" THEN None ELSE @[a]]]
          [] Bug = "authorize" -> IF d.class = "failed" /\ ~CanDeliver(d.s, SignerSet(t), t.msgs[1].t)
                                     /\ Exec([st EXCEPT !.bind = [a \in DOMAIN @ |-> "all"]], t).ok
                                  THEN [class |-> "ok", s |-> [Exec([st EXCEPT !.bind = [a \in DOMAIN @ |-> "all"]], t).s EXCEPT !.bind = st.bind]] ELSE d
          [] OTHER -> d

VARIABLES st, done, last
vars == <<st, done, last>>

Result(st0, t) == LET d == Real(st0, t)
                  IN  [op |-> "tx", tx |-> t, id |-> t, chk |-> IF Bug = "loose-check" THEN 0 ELSE IF d.class = "rejected" THEN 1 ELSE 0,
                       chkdig |-> IF Bug = "check-writes" THEN <<st0.acc>> ELSE st0.dig,
                       code |-> CASE d.class = "ok" -> 0 [] d.class = "rejected" -> 2 [] d.class = "failed" -> 3,
                       log |-> Bug # "silent", post |-> Stamp(d.s)]

Submit == \E t \in Txs :
             LET L == Result(st, t)
             IN  /\ last' = L /\ st' = L.post
                 /\ done' = IF Took(st, L) THEN done \cup {L.id} ELSE done
Other(L, s) == last' = [post |-> Stamp(s)] @@ L /\ st' = Stamp(s) /\ UNCHANGED done
Block(h) == [hash |-> ToString(h)]
Begin == /\ st.stage # "BeginBlock" /\ st.h < Size - 1
         /\ Other([op |-> "begin", h |-> st.h + 1, bb |-> Block(st.h + 1), panic |-> ""], DoBegin(st, st.h + 1, Block(st.h + 1)))
EndB  == /\ st.stage = "BeginBlock"
         /\ \E set \in BOOLEAN : Other([op |-> "end", h |-> st.h, set |-> set, rec |-> <<"u">>, panic |-> "",
                                        got |-> IF Bug = "repeat" THEN st.vu ELSE Reported(st, set, <<"u">>)],
                                       IF Bug = "repeat" THEN [DoEnd(st, st.h, set, <<>>) EXCEPT !.vu = st.vu] ELSE DoEnd(st, st.h, set, <<>>))
Valset == IF CanRecord(st) THEN Other([op |-> "valset", rec |-> <<"w">>, err |-> FALSE], [st EXCEPT !.vu = <<"w">>])
          ELSE Other([op |-> "valset", rec |-> <<"w">>, err |-> TRUE], st)
Rebind == \E r \in {External, "all", "norole"} : st.bind["k0"] # r /\ Other([op |-> "rebind"], [st EXCEPT !.bind["k0"] = r])
Mint   == CGet(BalOf(st, "k1"), D) = 0 /\ Other([op |-> "mint", addr |-> "k1", amt |-> Amt(2), err |-> FALSE], [st EXCEPT !.bal = Put(@, "k1", (D :> 2))])

Init == st = Stamp(S0) /\ done = {} /\ last = [op |-> "init"]
Next == Submit \/ Begin \/ EndB \/ Valset \/ Rebind \/ Mint
Spec == Init /\ [][Next]_vars

Bound == st.acc["k0"].s + st.acc["k1"].s < Size /\ Total(st.bal, D) <= 6
View  == <<[st EXCEPT !.dig = <<>>], done>>

(* what has to hold of every step *)
StepHolds == [][Holds(PROP, st, last', done)]_vars

(* what has to hold of every state *)
RECURSIVE SumSeq(_, _)
SumSeq(S, acc) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN acc[x].s + SumSeq(S \ {x}, acc)
RECURSIVE Signings(_)
Signings(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE y \in S : TRUE IN Cardinality(SignerSet(t)) + Signings(S \ {t})
Inv == Bug # "none" \/
       /\ {st.acc[a].n : a \in DOMAIN st.acc} = 0 .. (st.next - 1)
       /\ Cardinality(DOMAIN st.acc) = st.next
       /\ \A a \in DOMAIN st.bal : \A d \in DOMAIN st.bal[a] : st.bal[a][d] > 0
       /\ \A a \in DOMAIN st.acc : a \in DOMAIN st.bind
       /\ SumSeq(DOMAIN st.acc, st.acc) = Signings(done)
       /\ \A a \in DOMAIN st.acc : st.acc[a].s = Cardinality({t \in done : a \in SignerSet(t)})
=============================================================================
