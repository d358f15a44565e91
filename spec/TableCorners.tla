---------------------------- MODULE TableCorners -----------------------------
(* Table look-up, defined a second time and differently from PostTables.     *)
EXTENDS PostTables
(* The value as the sum over the corners of the cell the arguments fall into,  *)
(* each with the product of its weights: [v: value, s: sum of absolute terms]. *)
Corners(args, x) ==
  IF Len(args) = 1 THEN <<<<1, F1>>>>
  ELSE LET n == Len(args)
           i == CHOOSE i \in 1..(n - 1) : (i = 1 \/ ~(x \preceq x) \/ args[i] \preceq x) /\ (i = n - 1 \/ x \prec args[i + 1])
           u == (x \ominus args[i]) \oslash (args[i + 1] \ominus args[i])
       IN <<<<i, F1 \ominus u>>, <<i + 1, u>>>>
CornerSum(cs, f(_)) ==
  LET a == f(cs[1][1]) IN
  IF Len(cs) = 1 THEN a
  ELSE LET b == f(cs[2][1]) IN
       [v |-> (cs[1][2] \otimes a.v) \oplus (cs[2][2] \otimes b.v),
        s |-> (FAbs(cs[1][2]) \otimes a.s) \oplus (FAbs(cs[2][2]) \otimes b.s)]
Leaf(x) == [v |-> x, s |-> FAbs(x)]
EmptyTable(t) ==
  \/ Len(t.x[2]) = 0
  \/ TableDim(t) > 1 /\ Len(t.y[2]) = 0
  \/ TableDim(t) > 2 /\ Len(t.z[2]) = 0
CornerLook(t, val(_)) ==
  IF EmptyTable(t) THEN Leaf(F0)
  ELSE LET cx == Corners(t.x[2], val(t.x[1])) IN
  CASE TableDim(t) = 1 -> CornerSum(cx, LAMBDA i : Leaf(t.data[i]))
    [] TableDim(t) = 2 -> LET cy == Corners(t.y[2], val(t.y[1])) IN
                          CornerSum(cx, LAMBDA i : CornerSum(cy, LAMBDA j : Leaf(t.data[i][j])))
    [] TableDim(t) = 3 -> LET cy == Corners(t.y[2], val(t.y[1])) cz == Corners(t.z[2], val(t.z[1])) IN
                          CornerSum(cx, LAMBDA i : CornerSum(cy, LAMBDA j : CornerSum(cz, LAMBDA l : Leaf(t.data[i][j][l]))))
=============================================================================
