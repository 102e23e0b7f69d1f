-------------------------------- MODULE Coin --------------------------------
(***************************************************************************)
(* Arithmetic of coins. Amounts are of any size: sequences of decimal      *)
(* digits, the lowest first, without leading zeros (<<>> is 0). A coin is  *)
(* [d, ds, dok, ok, n, canon]: its denomination, the bytes of it, whether  *)
(* it is well formed, whether the amount is written in digits only, the    *)
(* amount, and whether it is written without leading zeros. A list of      *)
(* coins stands for a function from denominations to amounts.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

Digit(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
Max2(x, y)  == IF x > y THEN x ELSE y
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i > Max2(Len(a), Len(b)) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET s == Digit(a, i) + Digit(b, i) + carry IN <<s % 10>> \o AddFrom(a, b, i + 1, s \div 10)
Plus(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessFrom(a, b, Len(a)))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == Digit(a, i) - Digit(b, i) - borrow IN <<s % 10>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
Minus(a, b) == Trim(SubFrom(a, b, 1, 0))  \* for b <= a

(* order of denominations, byte by byte *)
RECURSIVE Before(_, _, _)
Before(x, y, i) == IF i > Len(y) THEN FALSE ELSE IF i > Len(x) THEN TRUE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE Before(x, y, i + 1)

WellFormed(max, cs) == \A i \in DOMAIN cs : cs[i].dok /\ cs[i].ok /\ Less(cs[i].n, max)
Repeats(cs)  == \E i, j \in DOMAIN cs : i < j /\ cs[i].d = cs[j].d /\ cs[i].n # <<>> /\ cs[j].n # <<>>
Denoms(cs)   == {cs[i].d : i \in DOMAIN cs}
(* a repetition with nothing may be refused or not *)
Doubtful(cs) == \E i, j \in DOMAIN cs : i < j /\ cs[i].d = cs[j].d
Of(cs, d)    == LET S == {i \in DOMAIN cs : cs[i].d = d /\ cs[i].n # <<>>} IN IF S = {} THEN <<>> ELSE cs[CHOOSE i \in S : TRUE].n

Possible(max, op, a, b) ==
    /\ WellFormed(max, a) /\ WellFormed(max, b) /\ ~Repeats(a) /\ ~Repeats(b)
    /\ \A d \in Denoms(a) \cup Denoms(b) : IF op = "add" THEN Less(Plus(Of(a, d), Of(b, d)), max) ELSE ~Less(Of(a, d), Of(b, d))
Value(op, a, b, d) == IF op = "add" THEN Plus(Of(a, d), Of(b, d)) ELSE Minus(Of(a, d), Of(b, d))

(* the result: precisely the denominations which are left, in order, once, with exact amounts *)
Right(op, a, b, o) ==
    /\ \A d \in Denoms(a) \cup Denoms(b) \cup Denoms(o) : Of(o, d) = Value(op, a, b, d)
    /\ \A i \in DOMAIN o : o[i].ok /\ o[i].canon /\ o[i].dok /\ o[i].n # <<>>
    /\ \A i \in 1 .. Len(o) - 1 : Before(o[i].ds, o[i + 1].ds, 1)

Arithmetic(st, L) ==
    CASE L.op \in {"add", "sub"} ->
           /\ L.kept
           /\ IF Possible(st.max, L.op, L.a, L.b)
              THEN \/ L.ok /\ Right(L.op, L.a, L.b, L.out)
                   \/ ~L.ok /\ (Doubtful(L.a) \/ Doubtful(L.b))
              ELSE ~L.ok
      [] OTHER -> TRUE

CoinHolds(p, st, L) == p = "C25" => Arithmetic(st, L)
CoinAfter(st, L)    == IF L.op = "cfg" THEN [max |-> L.max] ELSE st

If(b, t) == IF b THEN {t} ELSE {}
CoinTags(st, L) ==
    CASE L.op \in {"add", "sub"} ->
           LET big(cs) == \E i \in DOMAIN cs : Len(cs[i].n) > 19 IN
           {L.op \o (IF L.ok THEN "-ok" ELSE "-refused")}
           \cup If(L.ok /\ (big(L.a) \/ big(L.b)), "large-amounts")
           \cup If(L.ok /\ L.op = "sub" /\ \E d \in Denoms(L.a) : Of(L.a, d) # <<>> /\ Of(L.a, d) = Of(L.b, d), "all-of-a-denomination")
           \cup If(L.ok /\ \E i \in DOMAIN L.a : L.a[i].n = <<>>, "zero-amount")
           \cup If(L.ok /\ Cardinality(Denoms(L.a) \cup Denoms(L.b)) > 2, "several-denominations")
           \cup If(\E cs \in {L.a, L.b} : \E i \in DOMAIN cs : ~cs[i].ok, "malformed-amount")
           \cup If(\E cs \in {L.a, L.b} : \E i \in DOMAIN cs : ~cs[i].dok, "malformed-denomination")
           \cup If(\E cs \in {L.a, L.b} : \E i \in DOMAIN cs : cs[i].ok /\ ~Less(cs[i].n, st.max), "amount-too-large")
           \cup If(Repeats(L.a) \/ Repeats(L.b), "repeated-denomination")
           \cup If(WellFormed(st.max, L.a) /\ WellFormed(st.max, L.b) /\ ~Repeats(L.a) /\ ~Repeats(L.b) /\ ~L.ok, IF L.op = "add" THEN "sum-too-large" ELSE "not-covered")
      [] OTHER -> {}
=============================================================================
