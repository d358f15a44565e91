----------------------------- MODULE PostTables -----------------------------
(* Coefficient tables: when a table is well-formed, and what a look-up       *)
(* returns.  A table is the record of its JSON document:                     *)
(*   [x |-> <<var, args>>, data |-> ...], with y and z for more dimensions.  *)
EXTENDS Vec, Sequences

HasField(r, f) == f \in DOMAIN r
NoTable == [x |-> <<"time", <<>>>>, data |-> <<>>]
TableDim(t) == IF HasField(t, "z") THEN 3 ELSE IF HasField(t, "y") THEN 2 ELSE 1

(* ---- well-formedness ---------------------------------------------------- *)
Increasing(args) == \A i \in 1..(Len(args) - 1) : args[i] \prec args[i + 1]
Fits(args, data) == Len(args) = Len(data) /\ Increasing(args)

WellFormed1(xs, d) == Fits(xs, d)
WellFormed2(xs, ys, d) == Fits(xs, d) /\ Increasing(ys) /\ \A i \in 1..Len(d) : WellFormed1(ys, d[i])
WellFormed3(xs, ys, zs, d) == Fits(xs, d) /\ Increasing(ys) /\ Increasing(zs) /\ \A i \in 1..Len(d) : WellFormed2(ys, zs, d[i])
WellFormed(t) ==
  CASE TableDim(t) = 1 -> WellFormed1(t.x[2], t.data)
    [] TableDim(t) = 2 -> WellFormed2(t.x[2], t.y[2], t.data)
    [] TableDim(t) = 3 -> WellFormed3(t.x[2], t.y[2], t.z[2], t.data)

(* ---- look-up ------------------------------------------------------------ *)
\* The segment [Lo, Lo + 1] of the (at least two) increasing arguments to use
\* for x: the one containing x, or the outermost one on x's side.  At an inner
\* grid point both neighbouring segments give the tabulated value.
RECURSIVE Seg(_, _, _)
Seg(args, x, i) == IF i >= Len(args) - 1 \/ x \preceq args[i + 1] THEN i ELSE Seg(args, x, i + 1)
Segment(args, x) == Seg(args, x, 1)

Line(x0, x1, y0, y1, x) == y0 \oplus (((x \ominus x0) \otimes (y1 \ominus y0)) \oslash (x1 \ominus x0))

NaN == F("NaN")
Look1(xs, x, d) ==
  IF Len(d) = 0 THEN NaN
  ELSE IF Len(d) = 1 THEN d[1]
  ELSE LET i == Segment(xs, x) IN Line(xs[i], xs[i + 1], d[i], d[i + 1], x)
Look2(xs, x, ys, y, d) ==
  IF Len(d) = 0 THEN NaN
  ELSE IF Len(d) = 1 THEN Look1(ys, y, d[1])
  ELSE LET i == Segment(xs, x) IN
       Line(xs[i], xs[i + 1], Look1(ys, y, d[i]), Look1(ys, y, d[i + 1]), x)
Look3(xs, x, ys, y, zs, z, d) ==
  IF Len(d) = 0 THEN NaN
  ELSE IF Len(d) = 1 THEN Look2(ys, y, zs, z, d[1])
  ELSE LET i == Segment(xs, x) IN
       Line(xs[i], xs[i + 1], Look2(ys, y, zs, z, d[i]), Look2(ys, y, zs, z, d[i + 1]), x)

\* The value of table t where the state variables have the values val(var)
Look(t, val(_)) ==
  CASE TableDim(t) = 1 -> Look1(t.x[2], val(t.x[1]), t.data)
    [] TableDim(t) = 2 -> Look2(t.x[2], val(t.x[1]), t.y[2], val(t.y[1]), t.data)
    [] TableDim(t) = 3 -> Look3(t.x[2], val(t.x[1]), t.y[2], val(t.y[1]), t.z[2], val(t.z[1]), t.data)
\* A missing table (no data: NaN) contributes nothing
Coefficient(t, val(_)) == LET c == Look(t, val) IN IF FIsNaN(c) THEN F0 ELSE c
=============================================================================
