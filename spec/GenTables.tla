------------------------------ MODULE GenTables ------------------------------
(* All small coefficient tables, well-formed or not, as documents: argument  *)
(* values out of a few sequences, data of every small shape; and data nested *)
(* too deep or not deep enough.  Writes them to the file OUT.                *)
(* Checks along the way that well-formedness is what PostTables says: a      *)
(* table is well-formed iff its data has an entry exactly at every tuple of  *)
(* argument positions, and the arguments increase in every dimension.        *)
EXTENDS PostConfig, TLC, IOUtils, Json, SequencesExt, Integers
VARIABLE done

N(i) == <<"num", FInt(i)>>
Arr(s) == <<"arr", s>>
Args1 == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<1, 2, 2>>, <<1, 1, 2>>, <<3, 2, 1>>, <<2, 3, 1>>, <<3, 3, 3>>}
Args == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>}
SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}
D1 == SeqsOf({7}, 2)           \* rows of up to two entries
D2 == SeqsOf(D1, 2)
D3 == SeqsOf(D2, 2)

Raw1 == {[args |-> <<a>>, data |-> d] : a \in Args1, d \in SeqsOf({7}, 4)}
Raw2 == {[args |-> <<a, b>>, data |-> d] : a \in Args, b \in Args, d \in SeqsOf(D1, 3)}
Raw3 == {[args |-> <<a, b, c>>, data |-> d] : a \in Args, b \in Args, c \in Args, d \in D3}
\* Depth of nesting not that of the table
Nested(n) == LET S[k \in 0..n] == IF k = 0 THEN 7 ELSE <<S[k - 1]>> IN S[n]
RawD == {[args |-> <<<<1>>, <<1>>, <<1>>>>, n |-> n, d |-> d] : n \in 1..3, d \in 0..4}

RECURSIVE Tree(_, _)
Tree(d, x) == IF d = 0 THEN N(x) ELSE Arr([i \in 1..Len(x) |-> Tree(d - 1, x[i])])
Axes == <<"x", "y", "z">>
Doc(args, data) ==
  <<"obj", [i \in 1..Len(args) |-> <<Axes[i], Arr(<<<<"str", "time">>, Tree(1, args[i])>>)>>]
           \o <<<<"data", data>>>>>>
Docs(raw) == {Doc(r.args, Tree(Len(r.args), r.data)) : r \in raw}
DocsD == {Doc(SubSeq(r.args, 1, r.n), Tree(r.d, Nested(r.d))) : r \in RawD}

\* The positions of entries in data of the given depth
Paths1(d) == {<<i>> : i \in 1..Len(d)}
Paths2(d) == UNION {{<<i>> \o p : p \in Paths1(d[i])} : i \in 1..Len(d)}
Paths3(d) == UNION {{<<i>> \o p : p \in Paths2(d[i])} : i \in 1..Len(d)}
Rows(d, n) == Len(d) = n
Up(a) == \A i, j \in 1..Len(a) : i < j => a[i] < a[j]
FTable(r) == LET f(s) == [i \in 1..Len(s) |-> FInt(s[i])] IN
  CASE Len(r.args) = 1 -> [x |-> <<"time", f(r.args[1])>>, data |-> f(r.data)]
    [] Len(r.args) = 2 -> [x |-> <<"time", f(r.args[1])>>, y |-> <<"time", f(r.args[2])>>,
                           data |-> [i \in 1..Len(r.data) |-> f(r.data[i])]]
    [] Len(r.args) = 3 -> [x |-> <<"time", f(r.args[1])>>, y |-> <<"time", f(r.args[2])>>, z |-> <<"time", f(r.args[3])>>,
                           data |-> [i \in 1..Len(r.data) |-> [j \in 1..Len(r.data[i]) |-> f(r.data[i][j])]]]
Law1 == \A r \in Raw1 : WellFormed(FTable(r)) <=> Up(r.args[1]) /\ Paths1(r.data) = {<<i>> : i \in 1..Len(r.args[1])}
Law2 == \A r \in Raw2 :
  WellFormed(FTable(r)) <=> /\ Up(r.args[1]) /\ Up(r.args[2]) /\ Len(r.data) = Len(r.args[1])
                            /\ Paths2(r.data) = (1..Len(r.args[1])) \X (1..Len(r.args[2]))
Law3 == \A r \in Raw3 :
  WellFormed(FTable(r)) <=> /\ Up(r.args[1]) /\ Up(r.args[2]) /\ Up(r.args[3]) /\ Len(r.data) = Len(r.args[1])
                            /\ \A i \in 1..Len(r.data) : Len(r.data[i]) = Len(r.args[2])
                            /\ Paths3(r.data) = (1..Len(r.args[1])) \X (1..Len(r.args[2])) \X (1..Len(r.args[3]))

AllDocs == SetToSeq(Docs(Raw1) \cup Docs(Raw2) \cup Docs(Raw3) \cup DocsD)
Write == LET all == AllDocs IN ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(all) |-> [doc |-> all[i]]])
GInit == done = FALSE
GNext == ~done /\ done' = TRUE /\ Write
Laws == done \/ (Law1 /\ Law2 /\ Law3)
=============================================================================
