----------------------------- MODULE ConfState ------------------------------
(* Are the states the real code returns related as the specification says?   *)
(* Every case of the file CASES is the end of one phase of one mission:      *)
(*   id, mission (up to and including the phase), s: state returned at the   *)
(*   end of the phase, and, where known, p: state at its start (the same     *)
(*   mission with the phase cut to zero length), e: state at the end of the  *)
(*   phase before.                                                           *)
(* The quantities a clause does not speak about are taken as observed, so    *)
(* that each property is judged on its own.                                  *)
EXTENDS PostDyn, TableCorners, TLC, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES c, done

T9 == F("1e-9")
T6 == F("1e-6")
\* Of scalars, vectors: tolerance tol relative to the scale
\* A phase that is ended at once may have taken one step of 1e-30 s (gen.probe)
Nought(t) == FAbs(t) \preceq F("1e-29")
\* ... in which the state moves this much at most
Budge(s) == F("1e-29") \otimes ((F1 \oplus Norm(s.velocity)) \oplus (Norm(s.acceleration) \oplus FAbs(s.massflow)))
NearS(x, y, scale) == FNear(x, y, T9, T9 \otimes scale)
NearV(a, b, scale) == \A i \in 1..3 : FNear(a[i], b[i], F0, T9 \otimes FMax(scale, Norm(b)))
Same(x, y) == x = y \/ FEq(x, y)
SameV(a, b) == \A i \in 1..3 : Same(a[i], b[i])

Par(k) == ParAfter(Cases[k].mission, Len(Cases[k].mission))
FirstPar(k) == Overlay(DefaultPar, Cases[k].mission[1])
Launch(k) == LaunchOf(FirstPar(k).planet, Cases[k].mission[1].init)
C0(k) == IF HasField(Cases[k], "e")
         THEN <<Deg(Cases[k].e.euler_angles[1]), Deg(Cases[k].e.euler_angles[2]), Deg(Cases[k].e.euler_angles[3])>>
         ELSE VZero
Last(k) == Cases[k].mission[Len(Cases[k].mission)]

(* ---- C01: hand-over ------------------------------------------------------ *)
C01(k) ==
  LET cs == Cases[k] e == cs.e p == cs.p v == Opt(Last(k), "vehicle", None)
      Kept(x, y) == Same(x, y) \/ FAbs(x \ominus y) \preceq Budge(p)
      KeptV(a, b) == \A i \in 1..3 : Kept(a[i], b[i])
  IN
  [time |-> Kept(p.time, e.time), position |-> KeptV(p.position, e.position),
   velocity |-> KeptV(p.velocity, e.velocity), restart |-> Nought(p.time_since_event),
   mass |-> HasField(v, "structure_mass") \/ HasField(v, "propellant_mass") \/ Kept(p.mass, e.mass)]

(* ---- C03: the end of a phase --------------------------------------------- *)
C03(k) ==
  LET par == Par(k) x == Value(par.crit[1], Cases[k].s) IN
  [met |-> FAbs(x \ominus par.crit[2]) \prec (F("1e-3") \oplus (F("1e-12") \otimes FAbs(x)))]

(* ---- C05: the clocks -------------------------------------------------------- *)
\* The time after n steps, if the phase is to end with the n-th
C05(k) ==
  LET cs == Cases[k] par == Par(k) h == par.step
      n == FRound(par.crit[2] \oslash h)
      exact == n \otimes h
      rounding == (F("1e-13") \oplus (n \otimes F("3e-16"))) \otimes (exact \oplus FAbs(cs.s.time))
      whole == /\ par.crit[1] = "time_since_event" /\ F("2e-3") \prec h /\ F1 \preceq n
               /\ FNear(par.crit[2], exact, F0, F("1e-4")) IN
  [forward |-> cs.p.time \preceq (cs.s.time \oplus F("1e-29")),   \* the start is observed by a step of 1e-30
   steps |-> whole => (FNear(cs.s.time_since_event, exact, F0, rounding) /\ FNear(cs.s.time \ominus cs.p.time, exact, F0, rounding)),
   together |-> FNear(cs.s.time_since_event, cs.s.time \ominus cs.p.time, T9, T9 \otimes (F1 \oplus FAbs(cs.s.time)))]

(* ---- C06: mass ------------------------------------------------------------ *)
C06(k) ==
  LET cs == Cases[k] s == cs.s p == cs.p par == Par(k)
      flow == FullFlow(par.engines)
      dt == s.time \ominus p.time
      burnt == p.mass \ominus s.mass
      most == FAbs(flow) \otimes FAbs(dt)
      scale == FAbs(p.mass) \oplus most
      before == IF HasField(cs, "e") THEN cs.e ELSE ZeroState
      start == StartMass(par, Last(k), before.mass, before.propellant_mass)
  IN [sum |-> NearS(s.propellant_mass, s.mass \ominus par.structure, FAbs(s.mass) \oplus FAbs(par.structure)),
      sum0 |-> NearS(p.propellant_mass, p.mass \ominus par.structure, FAbs(p.mass) \oplus FAbs(par.structure)),
      flow |-> NearS(s.massflow, s.throttle \otimes flow, F0) /\ NearS(p.massflow, p.throttle \otimes flow, F0),
      start |-> NearS(p.mass, start, FAbs(before.mass) \oplus FAbs(par.structure)),
      \* without a limit the throttle is 1 throughout
      burn |-> FIsFinite(par.limit) \/ NearS(s.mass, p.mass \oplus (flow \otimes dt), scale),
      \* with one it is between 0 and 1
      most |-> (FNeg(T9 \otimes scale)) \preceq burnt /\ burnt \preceq (most \oplus (T9 \otimes scale))]

(* ---- C07: steering -------------------------------------------------------- *)
C07(k) ==
  LET cs == Cases[k] par == Par(k) c0 == C0(k)
      axis(i) == IF i = 1 THEN par.roll ELSE IF i = 2 THEN par.yaw ELSE par.pitch
      ok(s, i) == LET val == Value(axis(i)[1], Known(s, SteeringFields, ZeroState)) IN
                  FNear(s.euler_angles[i], Rad(Poly(c0[i], axis(i)[2], val)), F0,
                        T9 \otimes (T6 \oplus Rad(PolyScale(c0[i], axis(i)[2], val))))
  IN [roll |-> ok(cs.s, 1), yaw |-> ok(cs.s, 2), pitch |-> ok(cs.s, 3),
      start |-> ok(cs.p, 1) /\ ok(cs.p, 2) /\ ok(cs.p, 3),
      continuous |-> ~HasField(cs, "e") \/
         \A i \in 1..3 : axis(i)[1] = "time_since_event" =>
             FNear(cs.p.euler_angles[i], cs.e.euler_angles[i], F0, T9 \otimes FMax(F1, FAbs(cs.e.euler_angles[i])))]

(* ---- C08: throttle -------------------------------------------------------- *)
\* How far the throttle at which the limit is met moves with tiny changes of the forces
Loose(A, T, a) ==
  LET tt == Dot(T, T)
      b == Dot(A, T) \oslash tt
      q == (Dot(A, A) \ominus Sq(a)) \oslash tt
      w2 == Sq(b) \ominus q
      d == F("1e-7") \otimes (Sq(b) \oplus FAbs(q) \oplus F1)
  IN IF FEq(tt, F0) \/ ~FIsFinite(a) THEN F0
     ELSE IF w2 \preceq (F2 \otimes d) THEN FSqrt(F("4") \otimes d) ELSE d \oslash FSqrt(w2)
C08s(par, s) ==
  LET full == FullThrust(par.engines, s.pressure)
      a == par.limit \otimes s.mass
      noise == T6 \otimes (Norm(s.aero_force_body) \oplus Norm(full) \oplus a)
      sensed == Norm(VAdd(s.aero_force_body, VScale(s.throttle, full)))
  IN [range |-> F0 \preceq s.throttle /\ s.throttle \preceq F1,
      full |-> FIsFinite(par.limit) \/ FEq(s.throttle, F1),
      exact |-> (F1 \ominus F("1e-7")) \prec s.throttle \/ (a \ominus noise) \preceq sensed,
      kept |-> sensed \preceq ((a \otimes F("1.001")) \oplus noise),
      kept2 |-> Norm(s.vehicle_acceleration_body) \preceq (par.limit \otimes F("1.001001")),
      \* (where the force hardly depends on the throttle, it is hardly determined)
      value |-> FNear(s.throttle, AutoThrottle(s.aero_force_body, full, a), F0, F("1e-5") \oplus Loose(s.aero_force_body, full, a))]
\* Cases of C08 also say whether the limited run was aborted (cs.aborted), and
\* give the state of the same mission without a limit (cs.u).
C08(k) ==
  LET cs == Cases[k] par == Par(k) IN
  IF cs.aborted
  THEN LET full == FullThrust(par.engines, cs.u.pressure)
           a == cs.limit \otimes cs.u.mass
           least == LeastSensed(cs.u.aero_force_body, full)
       IN [abort |-> (a \otimes F("0.999999")) \prec least]
  ELSE C08s(par, cs.s) @@
       (IF ~HasField(cs, "u") THEN [unlimited |-> TRUE] ELSE
        LET full == FullThrust(par.engines, cs.u.pressure)
            a == cs.limit \otimes cs.u.mass
        IN [feasible |-> LeastSensed(cs.u.aero_force_body, full) \preceq (a \otimes F("1.001001"))])

(* ---- C09: aerodynamic force ----------------------------------------------- *)
Body(k, s) == Attitude(Launch(k), s.euler_angles)
C09s(k, s) ==
  LET par == Par(k)
      v == MVec(Body(k, s), s.velocity_atmosphere)
      val(n) == Value(n, Known(s, TableFields, ZeroState))
      cd == Coefficient(par.drag, val)
      cl == Coefficient(par.lift, val)
      cy == Coefficient(par.side, val)
      noise == F("1e-8") \otimes FMax(F1, Norm(v))
      \* the side of the flow, and so the angle of attack, is not determined
      undecided == (v[1] \prec (NearlyZero \oplus noise) /\
                    (FAbs(v[3]) \preceq noise \/ FNear(FAbs(v[3]), NearlyZero, F0, noise)))
                   \/ (FNear(v[1], NearlyZero, F0, noise) /\ FAbs(v[3]) \preceq F("1e-5"))
      f == AeroForce(s.dynamic_pressure, par.area, s.alpha, cd, cl, cy)
      scale == FAbs(s.dynamic_pressure \otimes par.area) \otimes (FAbs(cd) \oplus FAbs(cl) \oplus FAbs(cy))
  IN [alpha |-> undecided \/ FNear(s.alpha, Alpha(v), F0, F("1e-7")),
      force |-> NearV(s.aero_force_body, f, scale)]
C09(k) == C09s(k, Cases[k].s)

(* ---- C11: table look-up ----------------------------------------------------- *)
C11s(par, s) ==
  LET val(n) == Value(n, Known(s, TableFields, ZeroState))
      cd == CornerLook(par.drag, val)
      cl == CornerLook(par.lift, val)
      cy == CornerLook(par.side, val)
      f == AeroForce(s.dynamic_pressure, par.area, s.alpha, cd.v, cl.v, cy.v)
      q == FAbs(s.dynamic_pressure \otimes par.area)
      \* the rounding of the arguments counts as well, relative to the data
      near(i, scale) == FNear(s.aero_force_body[i], f[i], F0, T9 \otimes (q \otimes scale))
  IN [side |-> near(2, cy.s), plane |-> near(1, cd.s \oplus cl.s) /\ near(3, cd.s \oplus cl.s)]
C11(k) == C11s(Par(k), Cases[k].s)

(* ---- C13: the launch site ------------------------------------------------- *)
C13(k) ==
  LET cs == Cases[k] p == cs.p pl == FirstPar(k).planet i == cs.mission[1].init
      lat == Rad(i.latitude) long == Rad(i.longitude)
      surface == SurfaceRadius(pl, FSin(Geocentric(pl, lat)))
      r == p.position
      \* the outward normal of the surface below
      nx == Norm(<<r[1], r[2], F0>>) \oslash Sq(pl.re)
      nz == r[3] \oslash Sq(pl.rp)
      nn == FSqrt(Sq(nx) \oplus Sq(nz))
      rn == Norm(r)
      tol == F("1e-9")
      moved == F("1e9") \otimes Budge(p)     \* to be multiplied by 1e-9
  IN [normal |-> FNear(nx \oslash nn, FCos(lat), F0, tol) /\ FNear(nz \oslash nn, FSin(lat), F0, tol),
      longitude |-> FNear(r[1], Norm(<<r[1], r[2], F0>>) \otimes FCos(long), F0, tol \otimes rn)
                    /\ FNear(r[2], Norm(<<r[1], r[2], F0>>) \otimes FSin(long), F0, tol \otimes rn),
      distance |-> FNear(rn, surface \oplus i.altitude, tol, F0),
      altitude |-> FNear(p.altitude, i.altitude, F0, tol \otimes rn),
      rest |-> NearV(p.velocity, GroundVelocity(pl, r), FMax(FAbs(pl.rate) \otimes rn, moved))
               /\ NearV(p.velocity_planet, VZero, FMax(FAbs(pl.rate) \otimes rn, moved)),
      time |-> Nought(p.time) /\ Nought(p.time_since_event)]

(* ---- C14: gravity ---------------------------------------------------------- *)
C14s(par, s) == [gravity |-> NearV(s.gravity_acceleration, Gravity(par.planet, s.position), GravityScale(par.planet, s.position))]
C14(k) == C14s(Par(k), Cases[k].s)

(* ---- C15: atmosphere -------------------------------------------------------- *)
C15s(par, s) ==
  LET h == s.altitude_geopotential
      va == s.velocity_atmosphere IN
  IF par.atm
  THEN [temperature |-> NearS(s.temperature, Atm!Temperature(h), F0),
        pressure |-> NearS(s.pressure, Atm!Pressure(h), F0),
        density |-> NearS(s.density, Atm!Density(s.temperature, s.pressure), F0),
        mach |-> NearS(s.mach_number, Norm(va) \oslash Atm!SoundSpeed(s.temperature), F0),
        q |-> NearS(s.dynamic_pressure, DynPressure(s.density, va), F0)]
  ELSE [vacuum |-> \A x \in {s.temperature, s.pressure, s.density, s.dynamic_pressure} : FEq(x, F0),
        force |-> SameV(s.aero_force_body, VZero)]
C15(k) == C15s(Par(k), Cases[k].s)

(* ---- C16: composition of forces --------------------------------------------- *)
C16s(k, s) ==
  LET acc == VDiv(VAdd(s.aero_force_body, s.thrust_force_body), s.mass)
      scale == (Norm(s.aero_force_body) \oplus Norm(s.thrust_force_body)) \oslash FAbs(s.mass)
  IN [sensed |-> NearV(s.vehicle_acceleration_body, acc, scale),
      turned |-> NearV(s.acceleration,
                   VAdd(MVec(MTrans(Body(k, s)), s.vehicle_acceleration_body), s.gravity_acceleration),
                   Norm(s.vehicle_acceleration_body) \oplus Norm(s.gravity_acceleration))]
C16(k) == C16s(k, Cases[k].s)

(* ---- C17: planet-relative quantities ------------------------------------------ *)
C17s(par, s) ==
  LET p == par.planet n == Norm(s.position) v == Norm(s.velocity) \oplus (FAbs(p.rate) \otimes n) IN
  [position |-> FIsFinite(p.rate) => \A i \in 1..3 :
       FNear(s.position_planet[i], PlanetPosition(p, s.time, s.position)[i], F0,
             (T9 \oplus (F("1e-15") \otimes FAbs(p.rate \otimes s.time))) \otimes n),
   velocity |-> NearV(s.velocity_planet, PlanetVelocity(p, s.position, s.velocity), v),
   wind |-> NearV(s.velocity_atmosphere, VSub(s.velocity_planet, par.wind), v \oplus Norm(par.wind)),
   altitude |-> FNear(s.altitude, Altitude(p, s.position), F0, F("1e-12") \otimes n),
   geopotential |-> NearS(s.altitude_geopotential, GeopotentialAltitude(p, s.altitude), F("1e-3"))]
C17(k) == C17s(Par(k), Cases[k].s)

(* ---- C18: names ------------------------------------------------------------------ *)
\* Everything a name selects in the configuration, in a state that ends a step
C18(k) ==
  LET par == Par(k) s == Cases[k].s c0 == C0(k)
      known == Known(s, SteeringFields, ZeroState)
      ok(axis, i) == LET val == Value(axis[1], known) IN
                     FNear(s.euler_angles[i], Rad(Poly(c0[i], axis[2], val)), F0,
                           T9 \otimes (T6 \oplus Rad(PolyScale(c0[i], axis[2], val))))
  IN C03(k) @@ C11s(par, s) @@ [roll |-> ok(par.roll, 1), yaw |-> ok(par.yaw, 2), pitch |-> ok(par.pitch, 3)]

(* ---- C19: a time step ----------------------------------------------------------- *)
\* p: state before the last step (field h: its size), s: state after it
C19(k) ==
  LET cs == Cases[k] par == Par(k) c0 == C0(k)
      sys(x) == System(par, Launch(k), c0, x)
      r == RungeKutta(sys, cs.p, cs.s.time \ominus cs.p.time)
      n == r.new
      s == cs.s
      dt == FAbs(cs.s.time \ominus cs.p.time)
      \* the end of the step, with the observed primary state
      z == sys([ZeroState EXCEPT !.time = s.time, !.time_since_event = s.time_since_event,
                                 !.position = s.position, !.velocity = s.velocity, !.mass = s.mass])
      near(a, b, e1, x1, e2, x2, d) == \A i \in 1..3 : FNear(a[i], b[i], F0, d \oplus ((F(e1) \otimes x1) \oplus (F(e2) \otimes x2)))
      \* the same step from a slightly different state
      o == RungeKutta(sys, DisturbedState(cs.p), cs.s.time \ominus cs.p.time).new
      drift(f) == VSpread(n[f], o[f])
      \* what acceleration the forces make, at most
      acc == Norm(n.gravity_acceleration) \oplus
             ((ThrustScale(par.engines, n.pressure) \oplus Norm(n.aero_force_body)) \oslash FAbs(n.mass))
      \* an integration that diverges, beyond all reason
      diverges == ~(/\ Norm(n.velocity) \prec F("1e15") /\ Norm(n.position) \prec F("1e15")
                    /\ Norm(n.euler_angles) \prec F("1e8") /\ Norm(cs.p.euler_angles) \prec F("1e8"))
  IN IF diverges THEN [diverges |-> TRUE] ELSE
     [position |-> near(s.position, n.position, "1e-13", Norm(n.position), "1e-9",
                        dt \otimes (Norm(n.velocity) \oplus (dt \otimes acc)), drift("position")),
      velocity |-> near(s.velocity, n.velocity, "1e-13", Norm(n.velocity), "1e-8", dt \otimes acc, drift("velocity")),
      mass |-> NearS(s.mass, n.mass, F0),
      clocks |-> FNear(s.time_since_event \ominus cs.p.time_since_event, cs.s.time \ominus cs.p.time, T9, T9 \otimes FAbs(s.time)),
      fresh |-> NearS(s.altitude, z.altitude, Norm(s.position)) /\ NearS(s.pressure, z.pressure, F0)
                /\ NearV(s.velocity_planet, z.velocity_planet, Norm(s.velocity))
                /\ NearV(s.euler_angles, z.euler_angles, F1)
                /\ NearV(s.gravity_acceleration, z.gravity_acceleration, F0)]

(* ---- C20: thrust ------------------------------------------------------------------ *)
C20s(par, s) ==
  [thrust |-> NearV(s.thrust_force_body, VScale(s.throttle, FullThrust(par.engines, s.pressure)),
                    ThrustScale(par.engines, s.pressure)),
   flow |-> NearS(s.massflow, s.throttle \otimes FullFlow(par.engines), F0),
   \* engines burn at full thrust unless there is a limit, whatever the others do
   full |-> FIsFinite(par.limit) \/ FEq(s.throttle, F1),
   none |-> par.engines = <<>> => SameV(s.thrust_force_body, VZero) /\ FEq(s.massflow, F0)]
C20(k) == C20s(Par(k), Cases[k].s)

(* ---------------------------------------------------------------------------------- *)
Clauses(k) ==
  CASE Prop = "C01" -> C01(k) [] Prop = "C03" -> C03(k) [] Prop = "C05" -> C05(k)
    [] Prop = "C11" -> C11(k) [] Prop = "C18" -> C18(k) [] Prop = "C06" -> C06(k) [] Prop = "C07" -> C07(k)
    [] Prop = "C08" -> C08(k) [] Prop = "C09" -> C09(k) [] Prop = "C13" -> C13(k)
    [] Prop = "C14" -> C14(k) [] Prop = "C15" -> C15(k) [] Prop = "C16" -> C16(k)
    [] Prop = "C17" -> C17(k) [] Prop = "C19" -> C19(k) [] Prop = "C20" -> C20(k)

Init == c \in 1..Len(Cases) /\ done = FALSE
Check == LET r == Clauses(c) bad == {f \in DOMAIN r : ~r[f]} IN
         IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", Cases[c].id, bad>>)
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Check
=============================================================================
