------------------------------ MODULE GenConfig ------------------------------
(* Enumerates what may go wrong with a configuration: starting from the      *)
(* configurations of the file CASES, every single (or repeated, up to Depth) *)
(* change of one place, each with the verdict of the specification.          *)
EXTENDS PostConfig, TLC, TLCExt, IOUtils, Json, Integers
Bases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Depth
VARIABLES t, d

Zero == <<"num", F("0")>>
Odd == {<<"null">>, <<"bool", TRUE>>, <<"num", F("1.5")>>, <<"num", F("1")>>, Zero, <<"str", "time">>, <<"str", "1.5">>, <<"str", "true">>,
        <<"arr", <<>>>>, <<"obj", <<>>>>, <<"arr", <<Zero>>>>}
RemoveAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
InsertAt(s, i, x) == [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN x ELSE s[j - 1]]
Misspell(n) == {n \o "s", "_" \o n, "unknown"}
\* Names that are right somewhere else
Elsewhere == {"mass", "x", "latitude", "engines", "roll", "wind"}

\* Changes of this very value
Here(v) ==
  (Odd \ {v}) \cup
  (CASE v[1] = "arr" -> {<<"arr", RemoveAt(v[2], i)>> : i \in 1..Len(v[2])}
                        \cup {<<"arr", Append(v[2], v[2][i])>> : i \in 1..Len(v[2])}
                        \cup {<<"arr", Append(v[2], x)>> : x \in {<<"null">>, Zero}}
     [] v[1] = "obj" -> {<<"obj", RemoveAt(v[2], i)>> : i \in 1..Len(v[2])}
                        \cup {<<"obj", Append(v[2], v[2][i])>> : i \in 1..Len(v[2])}
                        \cup UNION {{<<"obj", [v[2] EXCEPT ![i] = <<n, @[2]>>]>> : n \in Misspell(v[2][i][1]) \cup Elsewhere}
                                    : i \in 1..Len(v[2])}
                        \cup {<<"obj", Append(v[2], <<n, x>>)>> : n \in {"unknown"} \cup Elsewhere, x \in {<<"null">>, Zero}}
     [] v[1] = "str" -> {<<"str", s>> : s \in Misspell(v[2]) \cup {"", "altitude", "linear", "spherical", "custom", "fisher1960"}}
     [] v[1] = "num" -> {Zero, <<"num", F("-1")>>, <<"num", F("3")>>}
     [] OTHER -> {})
RECURSIVE Changes(_)
Changes(v) ==
  Here(v) \cup
  (CASE v[1] = "arr" -> UNION {{<<"arr", [v[2] EXCEPT ![i] = x]>> : x \in Changes(v[2][i])} : i \in 1..Len(v[2])}
     [] v[1] = "obj" -> UNION {{<<"obj", [v[2] EXCEPT ![i] = <<@[1], x>>]>> : x \in Changes(v[2][i][2])} : i \in 1..Len(v[2])}
     [] OTHER -> {})

GInit == d = 0 /\ \E i \in 1..Len(Bases) : t = Bases[i].tree
GNext == d < Depth /\ d' = d + 1 /\ t' \in Changes(t)
View == t
\* Every configuration reached is written out with its verdict
Out == PrintT("@" \o ToJson([tree |-> t, verdict |-> Verdict(t)]))
BaseFine == d = 0 => Verdict(t) = "yes"

(* ---- laws of the configuration language, checked on all of them ----------- *)
RECURSIVE Deeply(_, _, _)
\* Every object's members and every number within a value changed
Deeply(members(_), number(_), v) ==
  CASE v[1] = "arr" -> <<"arr", [i \in 1..Len(v[2]) |-> Deeply(members, number, v[2][i])]>>
    [] v[1] = "obj" -> LET m == members(v[2]) IN <<"obj", [i \in 1..Len(m) |-> <<m[i][1], Deeply(members, number, m[i][2])>>]>>
    [] v[1] = "num" -> <<"num", number(v[2])>>
    [] OTHER -> v
Backwards(m) == [i \in 1..Len(m) |-> m[Len(m) + 1 - i]]
IsSet(m) == SelectSeq(m, LAMBDA x : x[2][1] # "null")
Same(x) == x
\* The order of members has no meaning
OrderFree == Verdict(Deeply(Backwards, Same, t)) = Verdict(t)
\* null is as good as nothing
NullIsNothing == Verdict(t) = "yes" => Verdict(Deeply(IsSet, Same, t)) = "yes"
\* Only whether numbers increase has a meaning
NumbersFree == Verdict(Deeply(Same, LAMBDA x : x \oplus F1, t)) = Verdict(t)
\* Phases are judged one by one, and as the parts of a mission
PhaseWise == IF t[1] # "arr" THEN Verdict(t) = "no"
             ELSE /\ Verdict(t) = All({Verdict(<<"arr", <<t[2][i]>>>>) : i \in 1..Len(t[2])})
                  /\ Verdict(<<"arr", t[2] \o Backwards(t[2])>>) = Verdict(t)
\* A member given twice is never accepted
RECURSIVE Twice(_)
Twice(v) == CASE v[1] = "arr" -> UNION {{<<"arr", [v[2] EXCEPT ![i] = x]>> : x \in Twice(v[2][i])} : i \in 1..Len(v[2])}
              [] v[1] = "obj" -> {<<"obj", Append(v[2], v[2][i])>> : i \in 1..Len(v[2])}
                                 \cup UNION {{<<"obj", [v[2] EXCEPT ![i] = <<@[1], x>>]>> : x \in Twice(v[2][i][2])} : i \in 1..Len(v[2])}
              [] OTHER -> {}
Once == d = 0 => \A x \in Twice(t) : Verdict(x) = "no"
=============================================================================
