-------------------------------- MODULE KVMC --------------------------------
(* The key-value store as it is built: iterators are a snapshot, a position  *)
(* and a bound, advanced one key at a time. Checked exhaustively against     *)
(* what KV.tla promises; Bug plants a defect which has to be noticed.        *)
EXTENDS KV, IOUtils

PROP == IOEnv.PROP
Bug  == IOEnv.BUG
Big  == IOEnv.SIZE = "big"

Keys == {<<1>>, <<1, 0>>, <<255>>} \cup (IF Big THEN {<<0>>} ELSE {})
Vals == {<<>>, <<7>>}
Bounds == Keys \cup {<<>>}
Ids  == {0}

VARIABLES m, its, abs, last
vars == <<m, its, abs, last>>

NoBound == <<>>
(* the first key of the snapshot at or after k, within the bounds of the iterator *)
Cands(i, k, strict) == {x \in i.snap : (IF strict THEN Less(k, x[1]) ELSE Leq(k, x[1]))}
Valid(i) == /\ i.cur # <<>>
            /\ IF i.kind = "prefix" THEN Starts(i.cur[1], i.p)
               ELSE i.p = <<>> \/ (IF Bug = "exclusive-end" THEN Less(i.cur[1], i.p) ELSE Leq(i.cur[1], i.p))
Seek(i, k, strict) == LET c == Cands(i, k, strict)
                      IN  [i EXCEPT !.cur = IF c = {} THEN <<>> ELSE CHOOSE x \in c : \A y \in c : Leq(x[1], y[1])]
Open(kind, k, p) == Seek([kind |-> kind, snap |-> m, p |-> p, cur |-> <<>>], k, FALSE)
Fresh(i) == IF Bug = "live-iterator" THEN [i EXCEPT !.snap = m] ELSE i
Shown(i) == IF i.kind = "prefix" /\ Bug # "keeps-prefix" THEN <<Strip(i.cur[1], i.p), i.cur[2]>> ELSE i.cur
RECURSIVE Take(_, _)
Take(i, n) == IF n = 0 \/ ~Valid(i) THEN [got |-> <<>>, i |-> i]
              ELSE LET r == Take(Seek(Fresh(i), i.cur[1], TRUE), n - 1) IN [got |-> <<Shown(i)>> \o r.got, i |-> r.i]

List(m1) == InOrder(m1)
Done(L, m1, its1) == /\ m' = m1 /\ its' = its1
                     /\ last' = [panic |-> "", stable |-> TRUE, post |-> List(m1)] @@ L
                     /\ abs' = After(abs, [post |-> List(m1)] @@ L)

DoSet  == \E k \in Keys, v \in Vals : Done([op |-> "set", k |-> k, v |-> v], Set(m, k, v), its)
DoDel  == \E k \in Keys : Done([op |-> "delete", k |-> k, ok |-> IF Bug = "delete-lies" THEN TRUE ELSE k \in KeysOf(m)],
                               Del(m, k), its)
DoGet  == \E k \in Keys : Done([op |-> "get", k |-> k, ok |-> k \in KeysOf(m), got |-> IF k \in KeysOf(m) THEN At(m, k) ELSE <<>>], m, its)
DoWalk == \E k \in Bounds, e \in Bounds : Done([op |-> "range", k |-> k, end |-> e, got |-> Take(Open("range", k, e), 9).got], m, its)
DoPref == \E k \in Bounds : Done([op |-> "prefix", k |-> k, got |-> Take(Open("prefix", k, k), 9).got], m, its)
DoOpen == \E j \in Ids, k \in Bounds :
             \/ \E e \in Bounds : Done([op |-> "open", id |-> j, k |-> k, end |-> e], m, (j :> Open("range", k, e)) @@ its)
             \/ Done([op |-> "openprefix", id |-> j, k |-> k], m, (j :> Open("prefix", k, k)) @@ its)
DoNext == \E j \in DOMAIN its : \E n \in {1, 2} :
             LET r == Take(its[j], n)
             IN  Done([op |-> "next", id |-> j, n |-> n, got |-> r.got, valid |-> Valid(r.i)], m, (j :> r.i) @@ its)

Init == m = {} /\ its = [x \in {} |-> 0] /\ abs = [m |-> {}, it |-> [x \in {} |-> <<>>]] /\ last = [op |-> "init"]
Next == DoSet \/ DoDel \/ DoGet \/ DoWalk \/ DoPref \/ DoOpen \/ DoNext
Spec == Init /\ [][Next]_vars
View == <<m, its, abs>>
StepHolds == [][Holds(PROP, abs, last')]_vars
Inv == Bug # "none" \/ abs.m = m
=============================================================================
