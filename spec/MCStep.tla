------------------------------- MODULE MCStep --------------------------------
(* Laws of the Runge-Kutta step: motion that is cubic in time (and less) is  *)
(* integrated exactly, whatever the step size; the solution of y' = y is the *)
(* Taylor polynomial of degree four; the intermediate states are at the      *)
(* beginning, twice the middle, and the end; all four count.                 *)
EXTENDS PostDyn, TLC, Integers
CONSTANTS Coef, Sizes
VARIABLES c1, c2, c3, v0, i, set
CoefQ == {-3, 0, 1, 4}
CoefT == {-7, -3, -1, 0, 1, 2, 4, 100}
SizesT == 1..6
SizesQ == 1..4
Init == c1 \in Coef /\ c2 \in Coef /\ i \in Sizes /\ v0 = 0 /\ c3 = 0 /\ set = FALSE
Next == ~set /\ set' = TRUE /\ c3' \in Coef /\ v0' \in Coef /\ UNCHANGED <<c1, c2, i>>
H == <<F("0.25"), F("1"), F("7"), F("1000"), F("0.001"), F("33.3")>>[i]
S0 == [ZeroState EXCEPT !.time = F("10"), !.time_since_event = F("3"), !.mass = F("50"),
                        !.position = <<FInt(c1), FInt(c2), FInt(c3)>>, !.velocity = <<FInt(v0), FInt(c1), F0>>]
T(s) == s.time_since_event \ominus F("3")      \* time since the start of the step
Sys(s) == [s EXCEPT !.acceleration = <<FInt(c1) \oplus (FInt(c2) \otimes T(s)), FInt(c3) \otimes T(s), FInt(c2)>>,
                    !.massflow = (FInt(c1) \oplus (FInt(c2) \otimes T(s))) \oplus (FInt(c3) \otimes Sq(T(s)))]
New == RungeKutta(Sys, S0, H).new
Half(x) == FHalf \otimes x
Pol(x0, v, a, j) == ((x0 \oplus (v \otimes H)) \oplus (Half(a) \otimes Sq(H))) \oplus ((j \oslash F("6")) \otimes Cube(H))
Scale == (F1 \oplus Cube(H)) \otimes F("50")
Is(x, y) == FNear(x, y, F0, F("1e-14") \otimes Scale)
Cubic ==
  /\ Is(New.position[1], Pol(FInt(c1), FInt(v0), FInt(c1), FInt(c2)))
  /\ Is(New.position[2], Pol(FInt(c2), FInt(c1), F0, FInt(c3)))
  /\ Is(New.position[3], Pol(FInt(c3), F0, FInt(c2), F0))
  /\ Is(New.velocity[1], (FInt(v0) \oplus (FInt(c1) \otimes H)) \oplus (Half(FInt(c2)) \otimes Sq(H)))
  /\ Is(New.velocity[3], FInt(c2) \otimes H)
  /\ Is(New.mass, Pol(F("50"), FInt(c1), FInt(c2), F2 \otimes FInt(c3)))
  /\ FEq(New.time, F("10") \oplus H) /\ FEq(New.time_since_event, F("3") \oplus H)
\* y' = y in the first velocity component
Exp(s) == [s EXCEPT !.acceleration = s.velocity]
Taylor ==
  LET n == RungeKutta(Exp, S0, H).new
      p == F1 \oplus (H \otimes (F1 \oplus (H \otimes (FHalf \oplus (H \otimes (Sixth \oplus (H \oslash F("24"))))))))
  IN FNear(n.velocity[1], FInt(v0) \otimes p, F("1e-13"), F0)
Stages == LET st == RungeKutta(Sys, S0, H).stages IN
  /\ FEq(T(st[1]), F0) /\ Is(T(st[2]), Half(H)) /\ Is(T(st[3]), Half(H)) /\ Is(T(st[4]), H) /\ Len(st) = 5
=============================================================================
