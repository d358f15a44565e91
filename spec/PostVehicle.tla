---------------------------- MODULE PostVehicle -----------------------------
(* The vehicle: engines, aerodynamic forces, throttle.                       *)
EXTENDS PostTables
LOCAL INSTANCE PostAtmosphere

(* ---- engines ------------------------------------------------------------ *)
EngineThrust(e, p) ==
  VScale(e.thrust_vac \ominus (e.exit_area \otimes p),
         <<FCos(e.incidence[2]) \otimes FCos(e.incidence[1]),
           FSin(e.incidence[2]),
           FCos(e.incidence[2]) \otimes FSin(e.incidence[1])>>)
EngineFlow(e) == FNeg((e.thrust_vac \oslash e.isp_vac) \oslash StdGravity)
RECURSIVE FullThrust(_, _)
FullThrust(es, p) == IF es = <<>> THEN VZero ELSE VAdd(EngineThrust(Head(es), p), FullThrust(Tail(es), p))
RECURSIVE FullFlow(_)
FullFlow(es) == IF es = <<>> THEN F0 ELSE EngineFlow(Head(es)) \oplus FullFlow(Tail(es))
\* Sum of the absolute values, the scale rounding errors are relative to
RECURSIVE ThrustScale(_, _)
ThrustScale(es, p) == IF es = <<>> THEN F0 ELSE
  (FAbs(Head(es).thrust_vac) \oplus FAbs(Head(es).exit_area \otimes p)) \oplus ThrustScale(Tail(es), p)

(* ---- aerodynamics ------------------------------------------------------- *)
NearlyZero == F("1e-6")
\* Angle of attack of the flow with velocity v in the body frame
Alpha(v) ==
  IF v[1] \prec NearlyZero
  THEN IF FAbs(v[3]) \prec NearlyZero THEN F0
       ELSE IF v[3] \prec F0 THEN FNeg(FPi \oslash F2) ELSE FPi \oslash F2
  ELSE FAtan(v[3] \oslash v[1])

AeroForce(q, area, alpha, cd, cl, cy) ==
  LET ca == (FCos(alpha) \otimes cd) \ominus (FSin(alpha) \otimes cl)
      cn == (FSin(alpha) \otimes cd) \oplus (FCos(alpha) \otimes cl)
  \* without dynamic pressure there is no force, whatever the coefficients
  IN IF FEq(q, F0) THEN VZero ELSE VScale(q \otimes area, <<FNeg(ca), cy, FNeg(cn)>>)

(* ---- throttle ----------------------------------------------------------- *)
(* The sensed acceleration at throttle k is |A + k T| / m, a convex function *)
(* of k; the throttles in [0, 1] keeping it within the limit form an         *)
(* interval.  a = m * limit.                                                 *)
Clamp01(x) == FMin(FMax(x, F0), F1)
Sensed(A, T, k) == Norm(VAdd(A, VScale(k, T)))
\* The throttle with the least sensed acceleration
BestThrottle(A, T) == IF FEq(Dot(T, T), F0) THEN F1 ELSE Clamp01(FNeg(Dot(A, T) \oslash Dot(T, T)))
LeastSensed(A, T) == Sensed(A, T, BestThrottle(A, T))

\* The throttle the engines are given: full if that keeps the limit, otherwise
\* one at which the limit is met exactly - the greatest one if the limit is
\* kept without thrust, the least one if thrust is needed to keep it.
AutoThrottle(A, T, a) ==
  IF FEq(Dot(T, T), F0) \/ ~FIsFinite(a) THEN F1
  ELSE LET \* roots of T.T k^2 + 2 A.T k + A.A - a^2 = 0
           tt == Dot(T, T)
           b == Dot(A, T) \oslash tt
           c == (Dot(A, A) \ominus Sq(a)) \oslash tt
           disc == Sq(b) \ominus c
           w == FSqrt(FMax(disc, F0))
       IN IF disc \prec F0 THEN F1
          ELSE IF Norm(A) \preceq a THEN Clamp01(w \ominus b) ELSE Clamp01(FNeg(w \oplus b))
=============================================================================
