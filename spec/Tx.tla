--------------------------------- MODULE Tx ---------------------------------
(***************************************************************************)
(* Decoding of transactions: which byte strings are transactions, and what *)
(* they mean. A transaction t, as it is put on the wire, is                *)
(*                                                                         *)
(*   raw, body, auth  "ok", "empty", "junk", "utf8": the three encodings   *)
(*   stray    where there is a field which is not known ("" for nowhere)   *)
(*   msgs     [pre, name, form, v]: type URL pre \o name, content v        *)
(*   crit, noncrit    extension options                                    *)
(*   fee      [there, coins, payer]                                        *)
(*   signers  [a, key, pre, name, form, mode, seq]                         *)
(*   sigs     signatures                                                   *)
(*   memo, tm, bh, ah   memo, timeout, hashes of body and auth info        *)
(*                                                                         *)
(* The order of fields, superseded values of singular fields, and singular *)
(* messages in several parts make no difference. Nor does what was decoded *)
(* before or is decoded at the same time: st only knows what the decoder   *)
(* was made for.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

TypeOf(st, m) == IF m.pre = "/" /\ m.name = st.alias THEN st.send ELSE m.name
Relative(pre) == pre = "" \/ pre \in {"/", "type.googleapis.com/", "a/b/", "//", "/x/"}  \* only what follows the last slash counts
MsgOk(st, m)  == m.form = "ok" /\ Relative(m.pre) /\ TypeOf(st, m) \in st.transitions

KeyTypeOk(st, g) == g.pre = "/" /\ g.name \in {st.keytype, st.keyalias}
SignerOk(st, g)  == g.form = "ok" /\ KeyTypeOk(st, g) /\ g.mode \in {"direct", "direct-after-multi"}

Users(t)   == {t.signers[i].a : i \in DOMAIN t.signers}
PayerOk(t) == t.fee.payer = "" \/ t.fee.payer \in Users(t)
WireOk(t)  == t.raw = "ok" /\ t.body = "ok" /\ t.auth = "ok" /\ t.stray = ""

Fine(st, t) ==
    /\ WireOk(t)
    /\ ~t.crit
    /\ t.msgs # <<>> /\ \A i \in DOMAIN t.msgs : MsgOk(st, t.msgs[i])
    /\ t.fee.there /\ t.fee.coins # <<>> /\ PayerOk(t)
    /\ t.signers # <<>> /\ \A i \in DOMAIN t.signers : SignerOk(st, t.signers[i])
    /\ Len(t.sigs) = Len(t.signers)

(* what is decoded *)
Meaning(st, t) ==
    [msgs    |-> [i \in DOMAIN t.msgs |-> [name |-> TypeOf(st, t.msgs[i]), v |-> t.msgs[i].v]],
     users   |-> Users(t),
     signers |-> [i \in DOMAIN t.signers |-> [a |-> t.signers[i].a, key |-> t.signers[i].key, sig |-> t.sigs[i], seq |-> t.signers[i].seq]],
     fee     |-> t.fee.coins,
     payer   |-> IF t.fee.payer = "" THEN t.signers[1].a ELSE t.fee.payer,
     memo    |-> t.memo, tm |-> t.tm, bh |-> t.bh, ah |-> t.ah, sigs |-> t.sigs]

Means(o, m) ==
    /\ o.msgs = m.msgs /\ o.signers = m.signers /\ o.fee = m.fee /\ o.payer = m.payer
    /\ Rng(o.users) = m.users /\ Len(o.users) = Cardinality(m.users)
    /\ o.memo = m.memo /\ o.tm = m.tm /\ o.bh = m.bh /\ o.ah = m.ah /\ o.sigs = m.sigs /\ o.same

(* A refusal is an error - or a panic, which the application reports as a failure *)
Decoded(st, L) ==
    CASE L.op = "decode" -> IF Fine(st, L) THEN L.ok /\ L.panic = "" /\ Means(L.out, Meaning(st, L)) ELSE ~L.ok /\ L["nil"]
      [] L.op = "again"  -> L.panic = "" /\ L.stable /\ L.same
      [] OTHER -> TRUE

TxHolds(p, st, L) == p = "C12" => Decoded(st, L)

TxAfter(st, L) == IF L.op = "cfg" THEN [transitions |-> Rng(L.transitions), alias |-> L.alias, send |-> L.send, keyalias |-> L.keyalias, keytype |-> L.keytype]
                  ELSE st

If(b, t) == IF b THEN {t} ELSE {}
TxTags(st, L) ==
    CASE L.op = "decode" ->
          If(L.ok, "decoded") \cup If(~L.ok, "refused") \cup If(L.stray # "", "stray-" \o L.stray)
          \cup If(L.ok /\ Len(L.msgs) > 1, "many-messages") \cup If(L.ok /\ Len(L.signers) > 1, "many-signers")
          \cup If(L.ok /\ Len(L.signers) > Cardinality(Users(L)), "same-signer-twice")
          \cup If(L.ok /\ L.fee.payer # "", "payer-chosen") \cup If(WireOk(L) /\ ~PayerOk(L), "payer-not-signer")
          \cup If(L.ok /\ \E i \in DOMAIN L.msgs : L.msgs[i].name = st.alias, "alias")
          \cup If(L.ok /\ L.noncrit, "noncritical-option") \cup If(L.crit, "critical-option")
          \cup If(WireOk(L) /\ Len(L.sigs) # Len(L.signers), "signature-count")
          \cup If(\E i \in DOMAIN L.signers : L.signers[i].form # "ok", "bad-key")
          \cup If(\E i \in DOMAIN L.signers : ~KeyTypeOk(st, L.signers[i]), "bad-key-type")
          \cup If(\E i \in DOMAIN L.signers : L.signers[i].mode \notin {"direct", "direct-after-multi"}, "bad-mode")
          \cup If(\E i \in DOMAIN L.msgs : TypeOf(st, L.msgs[i]) \notin st.transitions, "no-transition")
          \cup If(\E i \in DOMAIN L.msgs : L.msgs[i].form \in {"unknown", "deep"}, "stray-in-message")
          \cup If(L.raw = "junk" \/ L.body = "junk" \/ L.auth = "junk", "junk") \cup If(L.body = "empty" \/ L.auth = "empty", "empty-part")
      [] L.op = "again" -> {"decoded-again"}
      [] OTHER -> {}
=============================================================================
