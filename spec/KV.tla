--------------------------------- MODULE KV ---------------------------------
(***************************************************************************)
(* The key-value store below everything which is stored. Keys and values   *)
(* are byte strings (sequences of 0..255); the state is                    *)
(*   m    the set of <<key, value>> pairs                                  *)
(*   it   the open iterators: what each of them has still to deliver       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1]
              ELSE Less(Tail(a), Tail(b))
Leq(a, b) == a = b \/ Less(a, b)

Starts(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Strip(k, p)  == SubSeq(k, Len(p) + 1, Len(k))
InOrder(S)   == SetToSortSeq(S, LAMBDA x, y : Less(x[1], y[1]))

KeysOf(m) == {x[1] : x \in m}
At(m, k)  == (CHOOSE x \in m : x[1] = k)[2]
Set(m, k, v) == {x \in m : x[1] # k} \cup {<<k, v>>}
Del(m, k)    == {x \in m : x[1] # k}

(* everything from start to end, both included; no end means to the last key *)
Between(m, a, b)  == InOrder({x \in m : Leq(a, x[1]) /\ (b = <<>> \/ Leq(x[1], b))})
(* everything which starts with the prefix, without it *)
Prefixed(m, p)  == LET s == InOrder({x \in m : Starts(x[1], p)})
                   IN  [i \in DOMAIN s |-> <<Strip(s[i][1], p), s[i][2]>>]

First(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Rest(s, n)  == SubSeq(s, n + 1, Len(s))

Mutate(m, L) == CASE L.op = "set" -> Set(m, L.k, L.v) [] L.op = "delete" -> Del(m, L.k) [] OTHER -> m
Iters(st, L) == CASE L.op = "open"       -> (L.id :> Between(st.m, L.k, L.end)) @@ st.it
                  [] L.op = "openprefix" -> (L.id :> Prefixed(st.m, L.k)) @@ st.it
                  [] L.op = "next"       -> (L.id :> Rest(st.it[L.id], L.n)) @@ st.it
                  [] OTHER               -> st.it
After(st, L) == IF L.op = "init" THEN [m |-> {}, it |-> [x \in {} |-> <<>>]]
                ELSE [m |-> Mutate(st.m, L), it |-> Iters(st, L)]

C24(st, L) ==
    L.op # "init" =>
       /\ L.panic = "" /\ L.stable
       /\ ToSet(L.post) = Mutate(st.m, L) /\ Len(L.post) = Cardinality(Mutate(st.m, L))
       /\ CASE L.op = "get"    -> L.ok = (L.k \in KeysOf(st.m)) /\ (L.ok => L.got = At(st.m, L.k))
            [] L.op \in {"has", "delete"} -> L.ok = (L.k \in KeysOf(st.m))
            [] L.op = "range"  -> L.got = Between(st.m, L.k, L.end)
            [] L.op = "prefix" -> L.got = Prefixed(st.m, L.k)
            [] L.op = "next"   -> L.got = First(st.it[L.id], L.n) /\ L.valid = (Len(st.it[L.id]) > L.n)
            [] OTHER           -> TRUE

Holds(p, st, L) == p = "C24" => C24(st, L)

Tags(st, L) ==
    IF L.op = "init" THEN {"kv-init"}
    ELSE {"kv-" \o L.op}
         \cup (IF L.op = "set" /\ L.k \in KeysOf(st.m) THEN {"kv-overwrite"} ELSE {})
         \cup (IF L.op = "delete" /\ L.k \in KeysOf(st.m) THEN {"kv-delete-existing"} ELSE {})
         \cup (IF L.op = "delete" /\ L.k \notin KeysOf(st.m) THEN {"kv-delete-missing"} ELSE {})
         \cup (IF L.op = "range" /\ L.end # <<>> /\ L.end \in KeysOf(st.m) THEN {"kv-range-to-existing"} ELSE {})
         \cup (IF L.op \in {"range", "prefix"} /\ Len(L.got) > 1 THEN {"kv-several"} ELSE {})
         \cup (IF L.op = "next" /\ st.it[L.id] # <<>> /\ \E j \in DOMAIN st.it[L.id] : st.it[L.id][j] \notin st.m THEN {"kv-changed-under-iterator"} ELSE {})
=============================================================================
