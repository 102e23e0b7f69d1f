------------------------------- MODULE CoinMC -------------------------------
(* Addition and subtraction the way they are done - drop what is nothing, put *)
(* in order, refuse repetitions, merge both lists - for every pair of short   *)
(* lists, with amounts below 100, computed with integers and checked against  *)
(* the arithmetic on digits of Coin.tla. Bug plants a defect.                 *)
EXTENDS Coin, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

MaxInt == 100
Max    == <<0, 0, 1>>
RECURSIVE ToDigits(_)
ToDigits(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o ToDigits(n \div 10)
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 10 * ToInt(Tail(a))

C(d, n)  == [d |-> d, ds |-> IF d = "a" THEN <<97, 97>> ELSE IF d = "b" THEN <<97, 97, 98>> ELSE <<98>>, dok |-> TRUE, ok |-> TRUE, n |-> ToDigits(n), canon |-> TRUE]
Amounts == IF Big THEN {0, 1, 9, 10, 50, 90, 99, 100} ELSE {0, 1, 9, 50, 99, 100}
Ds      == IF Big THEN {"a", "b", "c"} ELSE {"a", "b"}
Coins   == {C(d, n) : d \in Ds, n \in Amounts} \cup {[C("a", 1) EXCEPT !.ok = FALSE, !.n = <<>>], [C("b", 1) EXCEPT !.dok = FALSE]}
Lists   == {<<>>} \cup {<<c>> : c \in Coins} \cup {<<c, d>> : c \in Coins, d \in Coins}

VARIABLES last, done
vars == <<last, done>>

RECURSIVE Kept(_)
Kept(cs) == IF cs = <<>> THEN <<>> ELSE (IF cs[1].n = <<>> THEN <<>> ELSE <<cs[1]>>) \o Kept(Tail(cs))
Sorted(cs) == IF Len(cs) = 2 /\ Before(cs[2].ds, cs[1].ds, 1) THEN <<cs[2], cs[1]>> ELSE cs
Bad(cs) == \/ \E i \in DOMAIN cs : ~cs[i].dok
           \/ \E i \in DOMAIN cs : ~cs[i].ok
           \/ (Bug # "any-size" /\ \E i \in DOMAIN cs : ToInt(cs[i].n) >= MaxInt)
Twice(cs) == Bug # "repetitions" /\ Len(cs) = 2 /\ cs[1].d = cs[2].d
(* merging two sorted lists: amounts as integers *)
RECURSIVE Merge(_, _, _)
Merge(op, a, b) ==
    IF a = <<>> /\ b = <<>> THEN <<>>
    ELSE IF b = <<>> \/ (a # <<>> /\ Before(a[1].ds, b[1].ds, 1)) THEN <<[d |-> a[1].d, v |-> ToInt(a[1].n)]>> \o Merge(op, Tail(a), b)
    ELSE IF a = <<>> \/ Before(b[1].ds, a[1].ds, 1) THEN <<[d |-> b[1].d, v |-> (IF op = "add" THEN 1 ELSE -1) * ToInt(b[1].n)]>> \o Merge(op, a, Tail(b))
    ELSE LET v == ToInt(a[1].n) + (IF op = "add" THEN 1 ELSE -1) * ToInt(b[1].n)
         IN  (IF v = 0 /\ Bug # "keeps-zero" THEN <<>> ELSE <<[d |-> a[1].d, v |-> IF Bug = "wraps" THEN v % MaxInt ELSE v]>>) \o Merge(op, Tail(a), Tail(b))
Result(op, a, b) ==
    LET x == IF Bug = "unsorted" THEN Kept(a) ELSE Sorted(Kept(a))
        y == IF Bug = "unsorted" THEN Kept(b) ELSE Sorted(Kept(b))
        m == Merge(op, x, y)
        no == \/ Bad(a) \/ Bad(b) \/ Twice(x) \/ Twice(y)
              \/ \E i \in DOMAIN m : m[i].v < 0 /\ Bug # "negative"
              \/ \E i \in DOMAIN m : m[i].v >= MaxInt /\ Bug # "any-size"
        Abs(v) == IF v < 0 THEN -v ELSE v
    IN  [op |-> op, a |-> a, b |-> b, panic |-> "", kept |-> TRUE, ok |-> ~no,
         out |-> IF no THEN <<>> ELSE [i \in DOMAIN m |-> C(m[i].d, Abs(m[i].v))]]

Init == last = [op |-> "none"] /\ done = FALSE
Next == /\ ~done
        /\ \E op \in {"add", "sub"}, a \in Lists, b \in Lists : last' = Result(op, a, b)
        /\ done' = TRUE
Spec == Init /\ [][Next]_vars
StepHolds == [][CoinHolds(PROP, [max |-> Max], last')]_vars
(* the laws which follow: what was added can be taken away again, and leaves what there was *)
Same(x, y) == \A d \in Denoms(x) \cup Denoms(y) : Of(x, d) = Of(y, d)
Inv == done /\ Bug = "none" /\ last.ok =>
         /\ \A i \in DOMAIN last.out : ToInt(last.out[i].n) \in 1 .. MaxInt - 1
         /\ last.op = "add" => LET r == Result("sub", last.out, last.b) IN r.ok /\ Same(r.out, last.a)
         /\ last.op = "add" => Same(Result("add", last.b, last.a).out, last.out)
=============================================================================
