----------------------------- MODULE MCThrottle ------------------------------
(* The throttle law on a grid of aerodynamic forces, thrusts and limits: it  *)
(* is between 0 and 1; the limit is kept whenever any throttle keeps it;     *)
(* below 1 it is met exactly, or the throttle is 0 and nothing keeps it.     *)
EXTENDS PostVehicle, TLC, Integers
CONSTANTS Comp, Limits
VARIABLES a1, a2, a3, t1, t2, lim, set
CompQ == {-30, -7, 0, 3, 20}
CompT == {-40, -30, -13, -7, -1, 0, 1, 3, 8, 20, 45}
\* The first half of the grid initially, the rest (by all workers) in a step
Init == a1 \in Comp /\ a2 \in Comp /\ lim \in Limits /\ a3 = 0 /\ t1 = 0 /\ t2 = 0 /\ set = FALSE
Next == ~set /\ set' = TRUE /\ a3' \in Comp /\ t1' \in Comp /\ t2' \in Comp /\ UNCHANGED <<a1, a2, lim>>
A == <<FInt(a1), FInt(a2), FInt(a3)>>
T == <<FInt(t1), FInt(t2), F0>>
L == FInt(lim)
K == AutoThrottle(A, T, L)
S == Sensed(A, T, K)
Eps == F("1e-6")
Some == \E j \in 0..20 : Sensed(A, T, FInt(j) \oslash F("20")) \preceq (L \ominus Eps)
Range == F0 \preceq K /\ K \preceq F1
Kept == Some => S \preceq (L \oplus Eps)
Exact == K \prec F1 /\ S \preceq (L \oplus Eps) => FNear(S, L, F0, Eps)
\* Full thrust whenever full and zero thrust both keep the limit (convexity)
Full == Norm(A) \preceq L /\ Sensed(A, T, F1) \preceq L => FNear(K, F1, F0, Eps)
\* The best throttle is at least as good as any other, and decides feasibility
Best == \A j \in 0..20 : LeastSensed(A, T) \preceq (Sensed(A, T, FInt(j) \oslash F("20")) \oplus Eps)
Feasible == LeastSensed(A, T) \preceq (L \ominus Eps) => S \preceq (L \oplus Eps)
\* Without need for thrust the greatest throttle that keeps the limit, otherwise
\* the least one
Greatest == Norm(A) \preceq (L \ominus Eps) => \A j \in 0..20 : LET x == FInt(j) \oslash F("20") IN
              (K \oplus Eps) \prec x => (L \ominus Eps) \preceq Sensed(A, T, x)
Least == (L \oplus Eps) \prec Norm(A) /\ S \preceq (L \oplus Eps) => \A j \in 0..20 : LET x == FInt(j) \oslash F("20") IN
              x \prec (K \ominus Eps) => (L \ominus Eps) \preceq Sensed(A, T, x)
None == ~FEq(Dot(T, T), F0) \/ K = F1
Infinite == AutoThrottle(A, T, FInf) = F1
=============================================================================
