------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The application state machine seen by a chain: accounts, balances,      *)
(* roles, the life cycle of blocks, and what submitting a transaction does *)
(* to them. The state is one record                                        *)
(*                                                                         *)
(*   acc    address -> [n, s, pk, self]  account number, sequence, public  *)
(*                                       key ("none" when unset)           *)
(*   next   the next account number                                        *)
(*   bal    address -> (denom -> amount > 0)                               *)
(*   bind   subject -> role id                                             *)
(*   roles  role id -> list of the transitions it may deliver              *)
(*   canon  stored amounts are non negative canonical integers             *)
(*   maxMemo, maxSigs   limits on transactions                             *)
(*   stage, h, chain, bb, ebh, vu       what is recorded of the ABCI calls *)
(*   rest   fingerprint of everything else that is stored                  *)
(*   dig    fingerprint of everything that is stored                       *)
(*                                                                         *)
(* The same operators are model checked exhaustively (ChainMC), used to    *)
(* generate behaviours which the real code has to follow (ChainGen), and   *)
(* used to judge what was recorded from the real code (ChainTrace).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

External  == "external_account"
Collector == "fee_collector"

------------------------------------------------------------------------------
(* Coins: functions from denominations to positive amounts *)

CGet(c, d)    == IF d \in DOMAIN c THEN c[d] ELSE 0
CNorm(f)      == [d \in {x \in DOMAIN f : f[x] # 0} |-> f[d]]
CAdd(a, b)    == CNorm([d \in DOMAIN a \cup DOMAIN b |-> CGet(a, d) + CGet(b, d)])
CSub(a, b)    == CNorm([d \in DOMAIN a \cup DOMAIN b |-> CGet(a, d) - CGet(b, d)])
CCovers(a, b) == \A d \in DOMAIN b : CGet(a, d) >= b[d]
CSame(a, b)   == \A d \in DOMAIN a \cup DOMAIN b : CGet(a, d) = CGet(b, d)

BalOf(st, a) == IF a \in DOMAIN st.bal THEN st.bal[a] ELSE [d \in {} |-> 0]

RECURSIVE SumOver(_, _, _)
SumOver(bal, S, d) == IF S = {} THEN 0
                      ELSE LET a == CHOOSE x \in S : TRUE
                           IN  CGet(bal[a], d) + SumOver(bal, S \ {a}, d)
Total(bal, d) == SumOver(bal, DOMAIN bal, d)
Denoms(bal)   == UNION {DOMAIN bal[a] : a \in DOMAIN bal}

Put(f, k, v) == (k :> v) @@ f

------------------------------------------------------------------------------
(* Execution of state transitions: results are [ok, s] *)

Ok(s) == [ok |-> TRUE,  s |-> s]
No(s) == [ok |-> FALSE, s |-> s]

DoCreate(s, a, pk) ==
    IF \/ a = "" \/ a \in DOMAIN s.acc \/ a \in DOMAIN s.bind \/ External \notin DOMAIN s.roles
    THEN No(s)
    ELSE Ok([s EXCEPT !.acc  = Put(@, a, [n |-> s.next, s |-> 0, pk |-> pk, self |-> TRUE]),
                      !.next = @ + 1,
                      !.bind = Put(@, a, External)])

DoSend(s, from, to, amt) ==
    IF \/ from \notin DOMAIN s.bal \/ ~amt.ok
    THEN No(s)
    ELSE IF ~CCovers(s.bal[from], amt.c) THEN No(s)
    ELSE LET s1 == [s EXCEPT !.bal = Put(@, from, CSub(s.bal[from], amt.c))]
         IN  IF to \in DOMAIN s1.bal
             THEN Ok([s1 EXCEPT !.bal = Put(@, to, CAdd(s1.bal[to], amt.c))])
             ELSE LET s2 == [s1 EXCEPT !.bal = Put(@, to, amt.c)]
                  IN  IF to \in DOMAIN s.acc THEN Ok(s2) ELSE DoCreate(s2, to, "none")

SignerSet(t) == {t.signers[i].a : i \in DOMAIN t.signers}

(* role based access control: every subject needs a role, and one of the roles must allow it *)
CanDeliver(s, subjects, msg) ==
    /\ \A a \in subjects : a \in DOMAIN s.bind /\ s.bind[a] \in DOMAIN s.roles
    /\ \E a \in subjects : msg \in Rng(s.roles[s.bind[a]])

DoMsg(s, subjects, m) ==
    IF m.t = "unknown" \/ ~CanDeliver(s, subjects, m.t) THEN No(s)
    ELSE CASE m.t = "send"     -> DoSend(s, m.from, m.to, m.amt)
           [] m.t = "create"   -> DoCreate(s, m.addr, m.pk)
           [] m.t = "setbal"   -> Ok([s EXCEPT !.bal = Put(@, m.addr, m.amt.c)])
           [] m.t = "mkrole"   -> IF m.id \in DOMAIN s.roles THEN No(s)
                                  ELSE Ok([s EXCEPT !.roles = Put(@, m.id, <<>>)])
           [] m.t = "bindrole" -> IF m.addr \in DOMAIN s.bind THEN No(s)
                                  ELSE Ok([s EXCEPT !.bind = Put(@, m.addr, m.role)])
           [] m.t = "valset"   -> IF s.stage \in {"InitChain", "EndBlock"}
                                  THEN Ok([s EXCEPT !.vu = m.vu]) ELSE No(s)

RECURSIVE DoMsgs(_, _, _, _)
DoMsgs(s, subjects, ms, i) ==
    IF i > Len(ms) THEN Ok(s)
    ELSE LET r == DoMsg(s, subjects, ms[i])
         IN  IF r.ok THEN DoMsgs(r.s, subjects, ms, i + 1) ELSE No(s)

(* the state just before the i-th message *)
Before(s, t, i) == DoMsgs(s, SignerSet(t), SubSeq(t.msgs, 1, i - 1), 1).s

------------------------------------------------------------------------------
(* Admission of transactions: what CheckTx and DeliverTx both demand *)

Payer(t) == IF t.payer = "" THEN t.signers[1].a ELSE t.payer

EnvOk(t)      == t.env = "ok" /\ Len(t.signers) > 0 /\ Len(t.msgs) > 0
AccountsOk(st, t) == SignerSet(t) \subseteq DOMAIN st.acc
SeqOk(st, t)  == \A i \in DOMAIN t.signers :
                    LET g == t.signers[i] IN g.a \in DOMAIN st.acc /\ g.seq = st.acc[g.a].s
SigOk(st, t)  == \A i \in DOMAIN t.signers :
                    LET g == t.signers[i] IN /\ g.a \in DOMAIN st.acc
                                             /\ g.good /\ g.chain = st.chain
                                             /\ g.num = st.acc[g.a].n
TimeoutOk(st, t) == ~t.tms \/ st.h <= t.tmv
MemoOk(st, t) == t.memo <= st.maxMemo
CountOk(st, t) == Len(t.signers) <= st.maxSigs
PayerOk(t)    == Payer(t) \in SignerSet(t)
SenderOk(t)   == \A i \in DOMAIN t.msgs : t.msgs[i].t = "send" => t.msgs[i].from \in SignerSet(t)
FeeOk(st, t)  == /\ t.fee.ok /\ Payer(t) \in DOMAIN st.bal
                 /\ CCovers(st.bal[Payer(t)], t.fee.c)
MsgOk(st, m)  == CASE m.t = "create"   -> m.addr # ""
                   [] m.t = "mkrole"   -> m.id # "" /\ m.id \notin DOMAIN st.roles
                   [] m.t = "bindrole" -> m.role \in DOMAIN st.roles
                   [] m.t = "unknown"  -> FALSE
                   [] OTHER            -> TRUE
MsgsOk(st, t) == \A i \in DOMAIN t.msgs : MsgOk(st, t.msgs[i])

Authentic(st, t) == EnvOk(t) /\ AccountsOk(st, t) /\ SigOk(st, t)

Admit(st, t) == /\ EnvOk(t) /\ AccountsOk(st, t) /\ SeqOk(st, t) /\ SigOk(st, t)
                /\ TimeoutOk(st, t) /\ MemoOk(st, t) /\ CountOk(st, t)
                /\ PayerOk(t) /\ SenderOk(t) /\ FeeOk(st, t) /\ MsgsOk(st, t)

(* what an admitted transaction does before its messages: public keys, sequences, fees *)
Sign(st, t) == [st EXCEPT !.acc =
                  [a \in DOMAIN st.acc |->
                     IF a \in SignerSet(t)
                     THEN [st.acc[a] EXCEPT !.s = @ + 1, !.pk = IF @ = "none" THEN a ELSE @]
                     ELSE st.acc[a]]]
Ante(st, t) == DoSend(Sign(st, t), Payer(t), Collector, t.fee)
Exec(st, t) == LET a == Ante(st, t) IN IF a.ok THEN DoMsgs(a.s, SignerSet(t), t.msgs, 1) ELSE No(st)

(* the outcome of delivering a transaction *)
Deliver(st, t) == IF ~Admit(st, t) \/ ~Ante(st, t).ok THEN [class |-> "rejected", s |-> st]
                  ELSE LET e == Exec(st, t)
                       IN  IF e.ok THEN [class |-> "ok", s |-> e.s]
                           ELSE [class |-> "failed", s |-> Ante(st, t).s]

------------------------------------------------------------------------------
(* Blocks *)

DoBegin(st, h, bb) == [st EXCEPT !.stage = "BeginBlock", !.h = h, !.bb = bb]
DoEnd(st, h, set, rec) == [st EXCEPT !.stage = "EndBlock", !.ebh = h, !.vu = <<>>]
Reported(st, set, rec) == IF set THEN rec ELSE st.vu
CanRecord(st) == st.stage \in {"InitChain", "EndBlock"}

------------------------------------------------------------------------------
(* Comparison of states *)

Parts == {"acc", "next", "bal", "bind", "roles", "canon", "maxMemo", "maxSigs", "stage", "h", "chain",
          "bb", "ebh", "vu", "rest"}
RoleSets(s)  == [r \in DOMAIN s.roles |-> Rng(s.roles[r])]
SamePart(p, a, b) == IF p = "roles" THEN RoleSets(a) = RoleSets(b) ELSE a[p] = b[p]
Same(a, b)   == \A p \in Parts : SamePart(p, a, b)
SameBut(a, b, ps) == \A p \in Parts \ ps : SamePart(p, a, b)
Frozen(a, b) == Same(a, b) /\ a.dig = b.dig

------------------------------------------------------------------------------
(* The properties. L is what was observed of one step from st:             *)
(*   transactions: L.tx, L.id, L.chk (CheckTx code, -1 not called, -2      *)
(*   panicked), L.chkdig (fingerprint after CheckTx), L.code (DeliverTx),  *)
(*   L.log (errors come with a description), L.post                        *)
(* done is the set of the ids of transactions which had an effect already. *)

IsTx(L)       == L.op = "tx"
Delivered(L)  == L.code # -1
Checked(L)    == L.chk # -1
Effect(st, L) == L.post.dig # (IF Checked(L) THEN L.chkdig ELSE st.dig)
Took(st, L)   == Delivered(L) /\ (L.code = 0 \/ Effect(st, L))
Through(st, L) == Took(st, L) \/ L.chk = 0

Sends(t) == {i \in DOMAIN t.msgs : t.msgs[i].t = "send"}
HasT(t, k) == \E i \in DOMAIN t.msgs : t.msgs[i].t = k

C01(st, L, done) == IsTx(L) /\ Through(st, L) => Authentic(st, L.tx)

C02(st, L, done) ==
    IF IsTx(L)
    THEN /\ Through(st, L) => EnvOk(L.tx) /\ SeqOk(st, L.tx)
         /\ Took(st, L) => L.id \notin done
         /\ \A a \in DOMAIN st.acc :
               /\ a \in DOMAIN L.post.acc
               /\ L.post.acc[a].s = st.acc[a].s + (IF Took(st, L) /\ a \in SignerSet(L.tx) THEN 1 ELSE 0)
    ELSE "post" \in DOMAIN L =>
         \A a \in DOMAIN st.acc : a \in DOMAIN L.post.acc /\ L.post.acc[a].s = st.acc[a].s

C03(st, L, done) ==
    IsTx(L) => LET d == Deliver(st, L.tx)
               IN  /\ Checked(L) /\ Admit(st, L.tx) => L.chk = 0
                   /\ Delivered(L) /\ d.class = "ok" =>
                         L.code = 0 /\ \A p \in {"acc", "next", "bal", "bind", "roles"} : SamePart(p, L.post, d.s)
                   /\ Delivered(L) /\ d.class = "failed" => Effect(st, L)

(* how much of d the messages and the fee of t take from a *)
RECURSIVE Spent(_, _, _, _)
Spent(t, a, d, i) == IF i = 0 THEN IF Payer(t) = a THEN CGet(t.fee.c, d) ELSE 0
                     ELSE Spent(t, a, d, i - 1) +
                          (IF t.msgs[i].t = "send" /\ t.msgs[i].from = a THEN CGet(t.msgs[i].amt.c, d) ELSE 0)
Minted(t) == {t.msgs[i].addr : i \in {j \in DOMAIN t.msgs : t.msgs[j].t = "setbal"}}

C04(st, L, done) ==
    IF IsTx(L)
    THEN \A a \in DOMAIN st.bal : \A d \in DOMAIN st.bal[a] :
            LET less == st.bal[a][d] - CGet(BalOf(L.post, a), d)
            IN  less > 0 /\ ~(L.code = 0 /\ a \in Minted(L.tx)) =>
                   /\ a \in SignerSet(L.tx) /\ Authentic(st, L.tx)
                   /\ less <= Spent(L.tx, a, d, Len(L.tx.msgs))
    ELSE "post" \in DOMAIN L /\ L.op # "mint" => L.post.bal = st.bal

C05(st, L, done) ==
    IF IsTx(L)
    THEN /\ L.post.canon
         /\ (L.code # 0 \/ Minted(L.tx) = {}) =>
               \A d \in Denoms(st.bal) \cup Denoms(L.post.bal) : Total(L.post.bal, d) = Total(st.bal, d)
         /\ L.code = 0 => LET e == Exec(st, L.tx) IN EnvOk(L.tx) /\ e.ok /\ L.post.bal = e.s.bal
         /\ ~Took(st, L) => L.post.bal = st.bal
    ELSE "post" \in DOMAIN L =>
         IF L.op = "mint" THEN L.post.canon /\ (~L.err => L.post.bal = Put(st.bal, L.addr, L.amt.c))
         ELSE L.post.bal = st.bal

C06(st, L, done) ==
    IsTx(L) =>
       /\ Through(st, L) => EnvOk(L.tx) /\ PayerOk(L.tx) /\ FeeOk(st, L.tx)
       /\ Took(st, L) /\ L.code # 0 =>
             EnvOk(L.tx) /\ LET a == Ante(st, L.tx) IN a.ok /\ L.post.bal = a.s.bal
       /\ L.code = 0 => EnvOk(L.tx) /\
             LET e == Exec(st, L.tx)
             IN  e.ok => /\ BalOf(L.post, Collector) = BalOf(e.s, Collector)
                         /\ BalOf(L.post, Payer(L.tx)) = BalOf(e.s, Payer(L.tx))
       /\ Delivered(L) /\ Deliver(st, L.tx).class # "rejected" => Took(st, L)

C07(st, L, done) ==
    IsTx(L) =>
       /\ L.code # 0 =>
             \/ Frozen(L.post, [st EXCEPT !.dig = IF Checked(L) THEN L.chkdig ELSE @])
             \/ EnvOk(L.tx) /\ LET a == Ante(st, L.tx) IN a.ok /\ Same(L.post, a.s)
       /\ L.code = 0 => EnvOk(L.tx) /\ LET e == Exec(st, L.tx) IN e.ok /\ Same(L.post, e.s)

C08(st, L, done) ==
    IsTx(L) /\ Checked(L) =>
       /\ L.chkdig = st.dig
       /\ ~Delivered(L) => Frozen(L.post, st)
       /\ Delivered(L) => (L.chk = 0 <=> Effect(st, L))
       /\ L.chk # 0 => L.code # 0

C09(st, L, done) ==
    /\ IsTx(L) => /\ L.chk # -2 /\ L.code # -2 /\ L.log
                  /\ ~EnvOk(L.tx) => L.chk # 0 /\ L.code # 0 /\ L.post.dig = st.dig
                  /\ L.chk >= 0 /\ ~Admit(st, L.tx) => L.chk # 0
                  /\ Delivered(L) /\ Deliver(st, L.tx).class # "ok" => L.code # 0
    /\ L.op \in {"begin", "end"} => L.panic = ""

C11(st, L, done) ==
    IsTx(L) =>
       /\ Through(st, L) => TimeoutOk(st, L.tx) /\ MemoOk(st, L.tx) /\ CountOk(st, L.tx)
       /\ Admit(st, L.tx) => /\ Checked(L) => L.chk = 0
                             /\ Delivered(L) /\ Ante(st, L.tx).ok => Took(st, L)

C13(st, L, done) ==
    CASE L.op = "begin"  -> L.panic = "" /\ Same(L.post, DoBegin(st, L.h, L.bb))
      [] L.op = "end"    -> /\ L.panic = "" /\ Same(L.post, DoEnd(st, L.h, L.set, L.rec))
                            /\ L.got = Reported(st, L.set, L.rec)
      [] L.op = "commit" -> Frozen(L.post, st)
      [] L.op = "valset" -> /\ L.err = ~CanRecord(st)
                            /\ IF L.err THEN Frozen(L.post, st) ELSE Same(L.post, [st EXCEPT !.vu = L.rec])
      [] IsTx(L)         -> SamePart("stage", L.post, st) /\ L.post.h = st.h /\ L.post.bb = st.bb /\ L.post.ebh = st.ebh
                            /\ L.post.chain = st.chain
                            /\ (L.post.vu = st.vu \/ (L.code = 0 /\ HasT(L.tx, "valset") /\ CanRecord(st)))
      [] L.op = "init"   -> /\ L.post.chain = L.cfg.chain /\ L.post.stage = "InitChain" /\ L.post.vu = L.cfg.vu
      [] OTHER           -> "post" \in DOMAIN L =>
                               SameBut(L.post, st, {"bal", "bind", "rest", "acc", "next"})

C14(st, L, done) ==
    IsTx(L) /\ L.code = 0 =>
       /\ EnvOk(L.tx)
       /\ LET a == Ante(st, L.tx)
          IN  a.ok /\ \A i \in DOMAIN L.tx.msgs :
                 CanDeliver(Before(a.s, L.tx, i), SignerSet(L.tx), L.tx.msgs[i].t)

C17(st, L, done) ==
    IF ~("post" \in DOMAIN L) THEN TRUE
    ELSE IF L.op = "init"
    THEN /\ \A a \in DOMAIN L.post.acc : L.post.acc[a].self
         /\ {L.post.acc[a].n : a \in DOMAIN L.post.acc} = 0 .. (Cardinality(DOMAIN L.post.acc) - 1)
         /\ L.post.next = Cardinality(DOMAIN L.post.acc)
    ELSE LET new == DOMAIN L.post.acc \ DOMAIN st.acc
         IN  /\ DOMAIN st.acc \subseteq DOMAIN L.post.acc
             /\ L.post.next = st.next + Cardinality(new)
             /\ {L.post.acc[a].n : a \in new} = st.next .. (st.next + Cardinality(new) - 1)
             /\ \A a \in new : L.post.acc[a].self /\ L.post.acc[a].s = 0
                               /\ L.op # "mkacc" => a \in DOMAIN L.post.bind /\ L.post.bind[a] = External
             /\ \A a \in DOMAIN st.acc :
                   /\ L.post.acc[a].n = st.acc[a].n /\ L.post.acc[a].self
                   /\ \/ L.post.acc[a].pk = st.acc[a].pk
                      \/ st.acc[a].pk = "none" /\ L.post.acc[a].pk = a /\ IsTx(L) /\ a \in SignerSet(L.tx)
             /\ IsTx(L) /\ Took(st, L) => \A a \in SignerSet(L.tx) :
                   a \in DOMAIN L.post.acc /\ L.post.acc[a].pk # "none"
             \* a module's direct delivery is no transaction: it can fail half way when the name already has a role
             /\ new # {} => (IsTx(L) /\ Took(st, L)) \/ (L.op = "mkacc" /\ new = {L.addr} /\ (~L.err \/ L.addr \in DOMAIN st.bind))
             /\ L.op = "mkacc" /\ (L.addr \in DOMAIN st.acc \/ L.addr = "") => L.err /\ Frozen(L.post, st)
             /\ L.op = "mkacc" /\ DoCreate(st, L.addr, L.pk).ok => ~L.err /\ Same(L.post, DoCreate(st, L.addr, L.pk).s)
             /\ IsTx(L) /\ Delivered(L) /\ Deliver(st, L.tx).class # "rejected" /\ L.code = 0 =>
                   new = DOMAIN Deliver(st, L.tx).s.acc \ DOMAIN st.acc

(* recorded pairs of a first execution and of a replay from genesis *)
C10(st, L, done) == L.op = "det" => L.a = L.b

Holds(p, st, L, done) ==
    IF L.op = "init" /\ p \notin {"C13", "C17"} THEN TRUE ELSE
    CASE p = "C01" -> C01(st, L, done) [] p = "C02" -> C02(st, L, done) [] p = "C03" -> C03(st, L, done)
      [] p = "C04" -> C04(st, L, done) [] p = "C05" -> C05(st, L, done) [] p = "C06" -> C06(st, L, done)
      [] p = "C07" -> C07(st, L, done) [] p = "C08" -> C08(st, L, done) [] p = "C09" -> C09(st, L, done)
      [] p = "C10" -> C10(st, L, done) [] p = "C11" -> C11(st, L, done) [] p = "C13" -> C13(st, L, done)
      [] p = "C14" -> C14(st, L, done) [] p = "C17" -> C17(st, L, done)

ChainProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C17"}

------------------------------------------------------------------------------
(* What kind of situation a line exercises (for coverage and vacuity) *)
Tags(st, L, done) ==
    IF L.op = "init" THEN {"init"} ELSE IF ~IsTx(L) THEN {L.op} \cup (IF L.op = "end" /\ L.got # <<>> THEN {"end-reports"} ELSE {})
                       \cup (IF L.op = "valset" /\ L.err THEN {"valset-refused"} ELSE {})
    ELSE LET t == L.tx IN
         {"tx-" \o Deliver(st, t).class}
         \cup (IF L.id \in done THEN {"resubmitted"} ELSE {})
         \cup (IF t.env = "fuzz" THEN {"arbitrary-bytes"} ELSE IF ~EnvOk(t) THEN {"bad-envelope"} ELSE
               (IF ~AccountsOk(st, t) THEN {"no-account"} ELSE
                  (IF ~SigOk(st, t) THEN {"bad-signature"} ELSE {})
                  \cup (IF ~SeqOk(st, t) THEN {"bad-sequence"} ELSE {})
                  \cup (IF SeqOk(st, t) /\ \E a \in SignerSet(t) : st.acc[a].pk = "none" THEN {"first-use-of-key"} ELSE {}))
               \cup (IF ~TimeoutOk(st, t) THEN {"timed-out"} ELSE {})
               \cup (IF t.tms /\ t.tmv = st.h THEN {"timeout-now"} ELSE {})
               \cup (IF ~MemoOk(st, t) THEN {"long-memo"} ELSE IF t.memo = st.maxMemo THEN {"longest-memo"} ELSE {})
               \cup (IF ~CountOk(st, t) THEN {"too-many-signers"} ELSE IF Len(t.signers) > 1 THEN {"many-signers"} ELSE {})
               \cup (IF ~PayerOk(t) THEN {"payer-not-signer"} ELSE IF ~FeeOk(st, t) THEN {"fee-not-covered"} ELSE {})
               \cup (IF ~SenderOk(t) THEN {"sender-not-signer"} ELSE {})
               \cup (IF ~MsgsOk(st, t) THEN {"message-not-admitted"} ELSE {})
               \cup (IF Len(t.msgs) > 1 /\ Deliver(st, t).class = "failed" THEN {"fails-half-way"} ELSE {})
               \cup (IF Len(t.msgs) > 1 /\ Deliver(st, t).class = "ok" THEN {"many-messages"} ELSE {})
               \cup (IF Deliver(st, t).class = "ok" /\ DOMAIN Deliver(st, t).s.acc # DOMAIN st.acc THEN {"creates-account"} ELSE {})
               \cup (IF Deliver(st, t).class = "failed" /\ ~CanDeliver(st, SignerSet(t), t.msgs[1].t) THEN {"not-authorized"} ELSE {})
               \cup (IF Deliver(st, t).class = "ok" /\ \E a \in SignerSet(t) : ~CanDeliver(st, {a}, t.msgs[1].t) THEN {"allowed-by-one-role"} ELSE {}))
=============================================================================
