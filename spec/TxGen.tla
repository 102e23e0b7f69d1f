-------------------------------- MODULE TxGen --------------------------------
(* Transactions of TxMC with any number of deviations, as scripts.            *)
EXTENDS TxMC, Json, Randomization
LEN == 40
VARIABLE hist
Real(n) == CASE n = "Send" -> "tmos.x.bank.v1alpha1.MsgSendCoins" [] n = "Create" -> "tmos.x.authn.v1alpha1.MsgCreateAccount"
             [] n = "Alias" -> "cosmos.bank.v1beta1.MsgSend" [] n = "Coin" -> "tmos.core.coin.v1alpha1.Coin"
             [] n = "Key" -> "tmos.x.authn.crypto.v1alpha1.PubKey" [] n = "KeyAlias" -> "cosmos.crypto.secp256k1.PubKey"
             [] n = "Priv" -> "tmos.x.authn.crypto.v1alpha1.PrivKey"
Op(t) == [t EXCEPT !.msgs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.name = Real(@)]],
                   !.signers = [i \in DOMAIN @ |-> [pre |-> @[i].pre, name |-> Real(@[i].name), form |-> @[i].form, mode |-> @[i].mode, seq |-> @[i].seq,
                                                    k |-> IF @[i].k = "k0" THEN 0 ELSE 1]]]
GenInit == Init /\ hist = <<>>
One(S) == RandomSubset(1, S)
Parts == {x \in DOMAIN Dom : TRUE}
GenStep == /\ Len(hist) < LEN
           /\ \E b \in One(Bases), n \in One(0..3), c \in One(Parts), d \in One(Parts), e \in One(Parts) :
                \E x \in One(Dom[c]), y \in One(Dom[d]), z \in One(Dom[e]) :
                  LET t1 == IF n > 0 THEN [b EXCEPT ![c] = x] ELSE b
                      t2 == IF n > 1 THEN [t1 EXCEPT ![d] = y] ELSE t1
                      t3 == IF n > 2 THEN [t2 EXCEPT ![e] = z] ELSE t2
                  IN  last' = Result(t3) /\ hist' = Append(hist, Op(t3))
           /\ UNCHANGED done
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
