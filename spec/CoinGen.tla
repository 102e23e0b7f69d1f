------------------------------ MODULE CoinGen ------------------------------
(* Calculations of CoinMC, scaled to the amounts the code can hold, as scripts *)
EXTENDS CoinMC, Json, Randomization
LEN == 60
VARIABLE hist
Amount(c) == CASE ~c.ok -> "1x" [] c.n = <<>> -> "0" [] ToInt(c.n) = 1 -> "1" [] ToInt(c.n) = 9 -> "99999999999999999999" [] ToInt(c.n) = 10 -> "100000000000000000000"
               [] ToInt(c.n) = 50 -> "2^254+0" [] ToInt(c.n) = 90 -> "2^254-1" [] ToInt(c.n) = 99 -> "2^255-1" [] OTHER -> "2^255+0"
Denom(c)  == IF ~c.dok THEN "1b" ELSE IF c.d = "a" THEN "aaa" ELSE IF c.d = "b" THEN "aaab" ELSE "Bcc"
Script(cs) == [i \in DOMAIN cs |-> <<Amount(cs[i]), Denom(cs[i])>>]
Op(L) == [op |-> L.op, a |-> Script(L.a), b |-> Script(L.b), chain |-> FALSE]
GenInit == Init /\ hist = <<>>
One(S) == RandomSubset(1, S)
GenStep == /\ Len(hist) < LEN
           /\ \E op \in One({"add", "sub"}), a \in One(Lists), b \in One(Lists) : last' = Result(op, a, b) /\ hist' = Append(hist, Op(last'))
           /\ UNCHANGED done
GenDone == Len(hist) = LEN /\ PrintT(ToJson(hist)) /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenStep \/ GenDone]_<<vars, hist>>
=============================================================================
