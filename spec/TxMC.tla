-------------------------------- MODULE TxMC --------------------------------
(* Decoding as it is done - the outer encoding, the body, the auth info, the  *)
(* messages, then the signers one by one - for every transaction which is as  *)
(* it should be but for any two of its parts, against what Tx.tla promises.   *)
(* Bug plants a defect.                                                       *)
EXTENDS Tx, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

St == [transitions |-> {"Send", "Create"}, alias |-> "Alias", send |-> "Send", keyalias |-> "KeyAlias", keytype |-> "Key"]

Msg(pre, name, form, v) == [pre |-> pre, name |-> name, form |-> form, v |-> v]
GoodMsgs == {Msg("/", "Send", "ok", 0), Msg("/", "Alias", "ok", 1), Msg("", "Create", "ok", 2)}
BadMsgs  == {Msg("/", "Coin", "ok", 0), Msg("", "Alias", "ok", 0), Msg("/", "Send", "unknown", 0), Msg("/", "Send", "deep", 0), Msg("/", "Create", "junk", 0)}
Signer(k, pre, name, form, mode) == [k |-> k, a |-> k, key |-> k, pre |-> pre, name |-> name, form |-> form, mode |-> mode, seq |-> IF k = "k0" THEN "3" ELSE "9"]
GoodSigners == {Signer(k, "/", n, "ok", "direct") : k \in {"k0", "k1"}, n \in {"Key", "KeyAlias"}}
BadSigners  == {Signer("k0", "", "Key", "ok", "direct"), Signer("k0", "/", "Priv", "ok", "direct"), Signer("k1", "/", "Key", "none", "direct"), Signer("k0", "/", "Key", "short", "direct"),
                Signer("k0", "/", "Key", "unknown", "direct"), Signer("k1", "/", "Key", "ok", "multi"), Signer("k1", "/", "Key", "ok", "none"), Signer("k0", "/", "Key", "ok", "textual"), Signer("k1", "/", "Key", "ok", "nosum")}
Msgs == GoodMsgs \cup BadMsgs
Signers == GoodSigners \cup BadSigners

Dom == [raw |-> {"ok", "junk", "empty"}, body |-> {"ok", "junk", "empty", "utf8"}, auth |-> {"ok", "junk", "empty"},
        stray |-> {"", "raw", "body", "auth", "any", "keyany", "single", "mode", "signer", "coin", "fee"},
        crit |-> BOOLEAN, noncrit |-> BOOLEAN, memo |-> {"", "m"}, tm |-> {"0", "5"},
        msgs |-> {<<>>} \cup {<<m>> : m \in Msgs} \cup (IF Big THEN {<<m, n>> : m \in Msgs, n \in Msgs} ELSE {<<m, n>> : m \in GoodMsgs, n \in Msgs}),
        fee  |-> {[there |-> FALSE, coins |-> <<>>, payer |-> ""]} \cup {[there |-> TRUE, coins |-> c, payer |-> p] : c \in {<<>>, <<<<"1", "atom">>>>, <<<<"2", "btc">>, <<"1", "atom">>>>}, p \in {"", "k0", "k1", "stranger"}},
        signers |-> {<<>>} \cup {<<g>> : g \in Signers} \cup (IF Big THEN {<<g, h>> : g \in Signers, h \in Signers} ELSE {<<g, h>> : g \in GoodSigners, h \in Signers}),
        sigs |-> {<<>>, <<"s">>, <<"s", "t">>, <<"t", "s">>, <<"s", "s", "t">>}]
Base(ms, gs, ss) == [op |-> "decode", raw |-> "ok", body |-> "ok", auth |-> "ok", stray |-> "", crit |-> FALSE, noncrit |-> FALSE, memo |-> "", tm |-> "0",
                     msgs |-> ms, signers |-> gs, sigs |-> ss, fee |-> [there |-> TRUE, coins |-> <<<<"1", "atom">>>>, payer |-> ""], bh |-> "b", ah |-> "a"]
Bases == {Base(<<Msg("/", "Send", "ok", 0)>>, <<Signer("k0", "/", "Key", "ok", "direct")>>, <<"s">>),
          Base(<<Msg("/", "Alias", "ok", 0), Msg("", "Create", "ok", 1)>>, <<Signer("k0", "/", "Key", "ok", "direct"), Signer("k1", "/", "KeyAlias", "ok", "direct")>>, <<"s", "t">>)}

VARIABLES last, done
vars == <<last, done>>

(* ---- the stages ---- *)
Stray(t) == IF Bug = "shallow" THEN t.stray \notin {"", "coin", "fee", "single", "mode", "signer", "any", "keyany"} ELSE t.stray # ""
StrayIn(form) == form = "unknown" \/ (form = "deep" /\ Bug # "shallow-messages")
Name(t, m) == IF (m.pre = "/" \/ Bug = "alias-anywhere") /\ m.name = St.alias THEN St.send ELSE m.name
MsgBad(t, m) == Name(t, m) \notin St.transitions \/ m.form = "junk" \/ StrayIn(m.form)
RECURSIVE SignersBad(_, _)
SignersBad(t, i) ==
    IF i > Len(t.signers) THEN FALSE
    ELSE LET g == t.signers[i]
             bad == \/ g.form \notin {"ok"}
                    \/ ~(g.name \in {"Key", "KeyAlias"} /\ (g.pre = "/" \/ Bug = "any-key-url"))
                    \/ g.mode \in {"none", "nosum"}
                    \/ (g.mode = "multi" /\ Bug # "multi")
                    \/ (g.mode = "textual" /\ ~(Bug = "mode-of-first" /\ i > 1))
         IN  IF Bug = "first-signer" /\ i > 1 THEN FALSE ELSE bad \/ SignersBad(t, i + 1)
PayerBad(t) == t.fee.payer # "" /\ Bug # "any-payer" /\ \A i \in DOMAIN t.signers : t.signers[i].a # t.fee.payer
Refuse(t) ==
    \/ t.raw # "ok" \/ t.body # "ok" \/ t.auth # "ok" \/ Stray(t)
    \/ t.sigs = <<>>
    \/ (t.crit /\ Bug # "ignores-options")
    \/ ~t.fee.there
    \/ (t.fee.coins = <<>> /\ Bug # "free")
    \/ t.msgs = <<>> \/ \E i \in DOMAIN t.msgs : MsgBad(t, t.msgs[i])
    \/ t.signers = <<>>
    \/ (IF Bug = "fewer-signatures" THEN Len(t.signers) < Len(t.sigs) ELSE Len(t.signers) # Len(t.sigs))
    \/ SignersBad(t, 1)
    \/ PayerBad(t)
Sig(t, i) == IF i \in DOMAIN t.sigs THEN t.sigs[IF Bug = "first-signature" THEN 1 ELSE i] ELSE ""
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Value(t) == [msgs |-> [i \in DOMAIN t.msgs |-> [name |-> Name(t, t.msgs[IF Bug = "repeats-first" THEN 1 ELSE i]), v |-> t.msgs[IF Bug = "repeats-first" THEN 1 ELSE i].v]],
             users |-> SeqOf({t.signers[i].a : i \in (IF Bug = "first-user" THEN {1} ELSE DOMAIN t.signers)}),
             signers |-> [i \in DOMAIN t.signers |-> [a |-> t.signers[i].a, key |-> t.signers[i].key, sig |-> Sig(t, i), seq |-> t.signers[i].seq]],
             fee |-> t.fee.coins,
             payer |-> IF t.fee.payer = "" THEN t.signers[IF Bug = "last-pays" THEN Len(t.signers) ELSE 1].a ELSE t.fee.payer,
             memo |-> t.memo, tm |-> t.tm, bh |-> "b", ah |-> "a", sigs |-> t.sigs, same |-> TRUE]
Result(t) == t @@ (IF Refuse(t) THEN [ok |-> FALSE, panic |-> "", nil |-> TRUE, out |-> <<>>]
                   ELSE [ok |-> TRUE, panic |-> "", nil |-> FALSE, out |-> Value(t)])

Init == last = [op |-> "none"] /\ done = FALSE
Next == /\ ~done
        /\ \E b \in Bases : \E c, d \in DOMAIN Dom : \E x \in Dom[c], y \in Dom[d] :
              last' = Result([[b EXCEPT ![c] = x] EXCEPT ![d] = y])
        /\ done' = TRUE
Spec == Init /\ [][Next]_vars
StepHolds == [][TxHolds(PROP, St, last')]_vars
(* what a decoded transaction always is *)
Inv == done /\ last.ok /\ Bug = "none" =>
         /\ Len(last.out.signers) = Len(last.sigs) /\ Len(last.out.msgs) > 0
         /\ last.out.payer \in Users(last)
         /\ \A i \in DOMAIN last.signers : last.signers[i].mode = "direct"
=============================================================================
