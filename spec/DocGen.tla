------------------------------ MODULE DocGen ------------------------------
(* Random programs of three messages, made of those of DocMC *)
EXTENDS DocMC, Json, Randomization
VARIABLE n
GenInit == Init /\ n = 0
Some(k, S) == RandomSubset(k, S)
Kinds3 == Plain \cup Wk \cup {F("z", "z", k, c, 0, "") : k \in {"bytes", "bool", "uint32", "uint64"}, c \in Cards}
          \cup {F("d", "d", "msg", c, 0, Pb(x)) : x \in {"Duration", "Int64Value", "BoolValue"}, c \in Cards}
Distinct3(fs) == \A i, j \in DOMAIN fs : fs[i].name = fs[j].name => i = j
Fs == LET R == Refs({1, 2, 3}) \cup {F("q", "q", "msg", c, k, "") : k \in {1, 2, 3}, c \in Cards}
          S == Some(3, Kinds3) \cup Some(2, R)
      IN  {fs \in {<<>>} \cup {<<f>> : f \in S} \cup {<<f, g>> : f, g \in S} \cup {<<f, g, h>> : f, g, h \in S} : Distinct3(fs)}
A3 == {[file |-> f, name |-> x, parent |-> 0, serve |-> s, fields |-> fs] : f \in {1, 2}, x \in {"M"}, s \in Serves, fs \in Fs}
Named3(m, x) == [m EXCEPT !.name = x]
Second(m) == {Named3(m, "N"), [m EXCEPT !.name = "In", !.parent = 1, !.file = 1, !.serve = "no"]}
Third(m, k) == {Named3(m, "O"), [m EXCEPT !.name = "In2", !.parent = k, !.serve = "no"]}
GenStep == /\ n < 30
           /\ \E a \in Some(1, A3), b \in Some(1, A3), c \in Some(1, A3), k \in Some(1, {1, 2}) :
                 LET m1 == [a EXCEPT !.file = 1, !.name = "M"]
                 IN  \E m2 \in Some(1, Second(b)), m3 \in Some(1, Third(c, k)) :
                       LET x == Case(<<"a", "b">>, <<m1, m2, IF m3.parent # 0 THEN [m3 EXCEPT !.file = IF m3.parent = 1 THEN 1 ELSE m2.file] ELSE m3>>)
                       IN  /\ last' = x
                           /\ Sound(x) => PrintT(ToJson(<<[op |-> "doc"] @@ x>>))
           /\ n' = n + 1 /\ UNCHANGED done
GenSpec == GenInit /\ [][GenStep]_<<vars, n>>
=============================================================================
