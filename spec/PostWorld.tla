----------------------------- MODULE PostWorld ------------------------------
(* The worlds of real missions: the operators PostSim is parametric in, over *)
(* floating point states.  A world is                                        *)
(*   [m: number of the mission, par: parameters in force, launch, c0: angles (deg) at the  *)
(*    start of the phase, s: state].                                         *)
EXTENDS PostDyn
CONSTANT Mission(_)   \* mission number -> sequence of phase configurations

FreshWorld(m) == [m |-> m, par |-> DefaultPar, launch |-> VZero, c0 |-> VZero, s |-> ZeroState]
WNPhases(w) == Len(Mission(w.m))
WHasInit(w) == HasField(Mission(w.m)[1], "init")

WEnter(w, k) ==
  LET c == Mission(w.m)[k]
      p == Overlay(w.par, c)
      s0 == [w.s EXCEPT !.mass = StartMass(p, c, w.s.mass, w.s.propellant_mass), !.time_since_event = F0]
      s == IF k > 1 THEN s0
           ELSE LET r == StartPosition(p.planet, c.init) IN
                [s0 EXCEPT !.position = r, !.velocity = GroundVelocity(p.planet, r)]
  IN [w EXCEPT !.par = p, !.s = s,
               !.launch = IF k = 1 THEN LaunchOf(p.planet, c.init) ELSE @,
               !.c0 = <<Deg(s.euler_angles[1]), Deg(s.euler_angles[2]), Deg(s.euler_angles[3])>>]

WSys(w, s) == System(w.par, w.launch, w.c0, s)
WEvaluate(w) == [w EXCEPT !.s = WSys(w, w.s)]
AbortSet(par, s) == IF MustAbort(par, s) THEN {TRUE} ELSE IF MayAbort(par, s) THEN BOOLEAN ELSE {FALSE}
WEvalAbort(w) == AbortSet(w.par, w.s)
WBaseStep(w) == w.par.step

WAttempt(w, h) ==
  LET r == RungeKutta(LAMBDA s : WSys(w, s), w.s, h) IN
  [w |-> [w EXCEPT !.s = r.new],
   abort |-> IF \E i \in 1..5 : MustAbort(w.par, r.stages[i]) THEN {TRUE}
             ELSE IF \E i \in 1..5 : MayAbort(w.par, r.stages[i]) THEN BOOLEAN ELSE {FALSE}]

\* The scale of the end criterion variable, for the rounding errors in Dist
WDist(w) == LET x == Value(w.par.crit[1], w.s) IN
            [d |-> x \ominus w.par.crit[2], eps |-> F("1e-12") \otimes (F1 \oplus FAbs(x) \oplus FAbs(w.par.crit[2]))]
Tolerance == F("1e-3")
\* x < y, where the difference counts only if it exceeds eps
Less(x, y, eps) == IF (x \oplus eps) \prec y THEN {TRUE} ELSE IF x \prec (y \oplus eps) THEN BOOLEAN ELSE {FALSE}
AndSet(A, B) == {a /\ b : a \in A, b \in B}
WMet(x) == Less(FAbs(x.d), Tolerance, x.eps)
WCrossed(old, new) ==
  LET eps == FMax(old.eps, new.eps)
      falling == AndSet(Less(FNeg(Tolerance), old.d, eps), Less(new.d, F0, eps))
      rising == AndSet(Less(old.d, Tolerance, eps), Less(F0, new.d, eps))
  IN UNION {IF f THEN falling ELSE rising : f \in Less(new.d, old.d, eps)}
\* Linear interpolation of the crossing; never back in time
WShorter(old, new, h) ==
  LET x == FNeg((old.d \otimes h) \oslash (new.d \ominus old.d)) IN IF FIsNaN(x) THEN F0 ELSE FMax(x, F0)
=============================================================================
