------------------------------ MODULE MCTables -------------------------------
(* Laws of the table look-up, over tables of every size up to Most in each   *)
(* of up to three dimensions, and arguments below, at, between and above the *)
(* tabulated ones.                                                           *)
EXTENDS TableCorners, TLC, Integers
CONSTANT Most
VARIABLES dim, n, q, set    \* dimensions, sizes, queries in half grid steps

Grid == <<F("-3"), F("-1"), F("0.5"), F("4"), F("9")>>
\* Query number j: below (0), at point j/2 (even), between (odd), above
At(m, j) == IF j = 0 THEN F("-8.25") ELSE IF j = 2 * m THEN Grid[m] \oplus F("3.75")
            ELSE IF j % 2 = 1 THEN Grid[(j + 1) \div 2]
            ELSE Grid[j \div 2] \oplus (F("0.375") \otimes (Grid[(j \div 2) + 1] \ominus Grid[j \div 2]))
Sizes == 0..Most
Init == dim \in 1..3 /\ n \in [1..dim -> Sizes] /\ q = [i \in 1..dim |-> 0] /\ set = FALSE
Next == ~set /\ set' = TRUE /\ UNCHANGED <<dim, n>>
        /\ q' \in {f \in [1..dim -> 0..(2 * Most)] : \A i \in 1..dim : f[i] <= 2 * n[i]}

Args(i) == [j \in 1..n[i] |-> Grid[j]]
Names == <<"a", "b", "c">>
Val(v) == LET i == CHOOSE i \in 1..3 : Names[i] = v IN At(n[i], q[i])
Make(f(_, _, _)) ==
  CASE dim = 1 -> [x |-> <<"a", Args(1)>>, data |-> [i \in 1..n[1] |-> f(i, 1, 1)]]
    [] dim = 2 -> [x |-> <<"a", Args(1)>>, y |-> <<"b", Args(2)>>,
                   data |-> [i \in 1..n[1] |-> [j \in 1..n[2] |-> f(i, j, 1)]]]
    [] dim = 3 -> [x |-> <<"a", Args(1)>>, y |-> <<"b", Args(2)>>, z |-> <<"c", Args(3)>>,
                   data |-> [i \in 1..n[1] |-> [j \in 1..n[2] |-> [k \in 1..n[3] |-> f(i, j, k)]]]]
Irregular(i, j, k) == FInt(((i * 37 + j * 101 + k * 13 + i * j * k * 7) % 61) - 30)
T == Make(Irregular)
Empty == \E i \in 1..dim : n[i] = 0
Full == ~Empty /\ set
Fine == WellFormed(T)
TwoWays == LET c == CornerLook(T, Val) IN FNear(Coefficient(T, Val), c.v, F0, F("1e-12") \otimes (F1 \oplus c.s))
NoEffect == Empty => FEq(Coefficient(T, Val), F0)
\* At a grid point: the entry itself
Point == Full /\ (\A i \in 1..dim : q[i] % 2 = 1) =>
  LET p(i) == (q[i] + 1) \div 2
      e == Irregular(p(1), IF dim > 1 THEN p(2) ELSE 1, IF dim > 2 THEN p(3) ELSE 1)
  IN FNear(Look(T, Val), e, F0, F("1e-12"))
\* Data that is linear in each argument is continued everywhere
G(i) == Grid[i]
Multilinear(i, j, k) == (F2 \oplus (F("3") \otimes G(i))) \otimes (F1 \ominus G(j)) \otimes (F("0.5") \oplus G(k))
Everywhere == Full /\ (\A i \in 1..dim : n[i] > 1) =>
  LET v(i) == IF i <= dim THEN At(n[i], q[i]) ELSE G(1)
      e == (F2 \oplus (F("3") \otimes v(1))) \otimes (F1 \ominus v(2)) \otimes (F("0.5") \oplus v(3))
      t == Make(Multilinear)
  IN FNear(Look(t, Val), e, F("1e-12"), F("1e-10"))
\* Entries away from the cell do not matter
Cell(i, p) == n[i] = 1 \/ LET lo == Segment(Args(i), At(n[i], q[i])) IN p \in {lo, lo + 1}
Local == Full =>
  LET f(i, j, k) == IF Cell(1, i) /\ (dim < 2 \/ Cell(2, j)) /\ (dim < 3 \/ Cell(3, k)) THEN Irregular(i, j, k) ELSE F("1e6")
  IN Look(Make(f), Val) = Look(T, Val)
=============================================================================
