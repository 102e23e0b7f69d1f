------------------------------ MODULE ChainGen ------------------------------
(* Random walks of the behaviour checked by ChainMC, printed as scripts for  *)
(* the conformance harness to follow on the real code.                       *)
EXTENDS ChainMC, Json, Randomization

LEN == 24
VARIABLE hist

KeyIx(a) == CASE a = "k0" -> 0 [] a = "k1" -> 1 [] OTHER -> 2
CoinsOf(c) == IF ~c.ok THEN << <<D, -1>> >> ELSE << <<D, CGet(c.c, D)>> >>
SignerOp(g) == [k |-> KeyIx(g.a), seq |-> g.seq, tamper |-> IF g.good THEN "" ELSE "sig",
                chain |-> g.chain, numoff |-> IF g.num = 7 THEN 7 ELSE 0]
MsgOp(m) == CASE m.t = "send"     -> [m EXCEPT !.amt = CoinsOf(@)]
              [] m.t = "setbal"   -> [m EXCEPT !.amt = CoinsOf(@)]
              [] m.t = "valset"   -> [m EXCEPT !.vu = << <<"v", 1>> >>]
              [] m.t = "unknown"  -> [t |-> "unknown", addr |-> "k0"]
              [] OTHER            -> m
TxOp(t, dlv) == [op |-> "tx", signers |-> [i \in DOMAIN t.signers |-> SignerOp(t.signers[i])],
            msgs |-> [i \in DOMAIN t.msgs |-> MsgOp(t.msgs[i])], fee |-> CoinsOf(t.fee),
            payer |-> t.payer, memo |-> t.memo] @@ (IF t.tms THEN [tm |-> t.tmv] ELSE [op |-> "tx"])
Op(L) == CASE L.op = "tx" -> IF L.tx.env = "fuzz" THEN [op |-> "fuzz", seed |-> Len(hist), mode |-> 1 + (Len(hist) % 3)] ELSE TxOp(L.tx, TRUE)
           [] L.op = "begin"  -> [op |-> "begin", h |-> L.h]
           [] L.op = "end"    -> IF L.set THEN [op |-> "end", vu |-> << <<"u", 2>> >>] ELSE [op |-> "end"]
           [] L.op = "valset" -> [op |-> "valset", vu |-> << <<"w", 3>> >>]
           [] L.op = "rebind" -> [op |-> "rebind", addr |-> "k0", role |-> st'.bind["k0"]]
           [] L.op = "mint"   -> [op |-> "mint", addr |-> "k1", amt |-> << <<D, 2>> >>]

Config == [keys |-> 3, scale |-> 0, hBase |-> 100, maxMemo |-> 1, maxSigs |-> 2, chain |-> "c",
           genesis |-> [k0 |-> (D :> 3), k1 |-> (D :> 1)], nopk |-> <<"k1">>,
           order |-> <<"authn", "rbac", "bank", "distribution", "tgen">>,
           roles |-> [all |-> <<"send", "setbal", "create", "mkrole", "bindrole", "valset">>]]

GenInit == Init /\ hist = <<Config>>
Some(k, S) == IF S = {} THEN {} ELSE RandomSubset(IF Cardinality(S) < k THEN Cardinality(S) ELSE k, S)
GenSubmit == \E t \in Some(2, Txs) \cup Some(4, {x \in Txs : Admit(st, x)}) \cup Some(1, done) :
                LET L == Result(st, t)
                IN  /\ last' = L /\ st' = L.post
                    /\ done' = IF Took(st, L) THEN done \cup {L.id} ELSE done
GenStep == Len(hist) < LEN /\ (GenSubmit \/ Begin \/ EndB \/ Valset \/ Rebind \/ Mint) /\ hist' = Append(hist, Op(last'))
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
