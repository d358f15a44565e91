------------------------------ MODULE PostDyn -------------------------------
(* The equations of motion: what the simulation computes in every state, in  *)
(* the order in which it does, and one Runge-Kutta step.                     *)
EXTENDS PostMission, PostSteering
Atm == INSTANCE PostAtmosphere

(* ---- the state and its variables ---------------------------------------- *)
\* Where a state variable name points: field, component (0: scalar, 4: norm)
VarRef ==
  [time |-> <<"time", 0>>, time_since_event |-> <<"time_since_event", 0>>,
   position1 |-> <<"position", 1>>, position2 |-> <<"position", 2>>, position3 |-> <<"position", 3>>,
   position_norm |-> <<"position", 4>>,
   position_planet1 |-> <<"position_planet", 1>>, position_planet2 |-> <<"position_planet", 2>>,
   position_planet3 |-> <<"position_planet", 3>>,
   altitude |-> <<"altitude", 0>>, altitude_geopotential |-> <<"altitude_geopotential", 0>>,
   velocity1 |-> <<"velocity", 1>>, velocity2 |-> <<"velocity", 2>>, velocity3 |-> <<"velocity", 3>>,
   velocity_norm |-> <<"velocity", 4>>,
   velocity_planet1 |-> <<"velocity_planet", 1>>, velocity_planet2 |-> <<"velocity_planet", 2>>,
   velocity_planet3 |-> <<"velocity_planet", 3>>, velocity_planet_norm |-> <<"velocity_planet", 4>>,
   velocity_atmosphere1 |-> <<"velocity_atmosphere", 1>>, velocity_atmosphere2 |-> <<"velocity_atmosphere", 2>>,
   velocity_atmosphere3 |-> <<"velocity_atmosphere", 3>>, velocity_atmosphere_norm |-> <<"velocity_atmosphere", 4>>,
   acceleration1 |-> <<"acceleration", 1>>, acceleration2 |-> <<"acceleration", 2>>,
   acceleration3 |-> <<"acceleration", 3>>, acceleration_norm |-> <<"acceleration", 4>>,
   thrust_force_body1 |-> <<"thrust_force_body", 1>>, thrust_force_body2 |-> <<"thrust_force_body", 2>>,
   thrust_force_body3 |-> <<"thrust_force_body", 3>>, thrust_force_body_norm |-> <<"thrust_force_body", 4>>,
   aero_force_body1 |-> <<"aero_force_body", 1>>, aero_force_body2 |-> <<"aero_force_body", 2>>,
   aero_force_body3 |-> <<"aero_force_body", 3>>, aero_force_body_norm |-> <<"aero_force_body", 4>>,
   vehicle_acceleration_body1 |-> <<"vehicle_acceleration_body", 1>>,
   vehicle_acceleration_body2 |-> <<"vehicle_acceleration_body", 2>>,
   vehicle_acceleration_body3 |-> <<"vehicle_acceleration_body", 3>>,
   vehicle_acceleration_body_norm |-> <<"vehicle_acceleration_body", 4>>,
   gravity_acceleration1 |-> <<"gravity_acceleration", 1>>, gravity_acceleration2 |-> <<"gravity_acceleration", 2>>,
   gravity_acceleration3 |-> <<"gravity_acceleration", 3>>, gravity_acceleration_norm |-> <<"gravity_acceleration", 4>>,
   mass |-> <<"mass", 0>>, propellant_mass |-> <<"propellant_mass", 0>>, massflow |-> <<"massflow", 0>>,
   temperature |-> <<"temperature", 0>>, pressure |-> <<"pressure", 0>>, density |-> <<"density", 0>>,
   mach_number |-> <<"mach_number", 0>>, dynamic_pressure |-> <<"dynamic_pressure", 0>>,
   alpha |-> <<"alpha", 0>>,
   euler_angles_roll |-> <<"euler_angles", 1>>, euler_angles_yaw |-> <<"euler_angles", 2>>,
   euler_angles_pitch |-> <<"euler_angles", 3>>, throttle |-> <<"throttle", 0>>]
VarNames == DOMAIN VarRef

Value(name, s) ==
  LET r == VarRef[name] IN
  CASE r[2] = 0 -> s[r[1]]
    [] r[2] = 4 -> Norm(s[r[1]])
    [] OTHER -> s[r[1]][r[2]]

ZeroState ==
  [time |-> F0, time_since_event |-> F0, position |-> VZero, position_planet |-> VZero,
   altitude |-> F0, altitude_geopotential |-> F0, velocity |-> VZero, velocity_planet |-> VZero,
   velocity_atmosphere |-> VZero, acceleration |-> VZero, thrust_force_body |-> VZero,
   aero_force_body |-> VZero, vehicle_acceleration_body |-> VZero, gravity_acceleration |-> VZero,
   mass |-> F0, propellant_mass |-> F0, massflow |-> F0, temperature |-> F0, pressure |-> F0,
   density |-> F0, mach_number |-> F0, dynamic_pressure |-> F0, alpha |-> F0,
   euler_angles |-> VZero, throttle |-> F0]
\* In the order of their computation: what is known to the steering, and to
\* the coefficient tables.  The rest still has its old value, normally zero.
PrimaryFields == {"time", "time_since_event", "position", "velocity", "mass"}
SteeringFields == PrimaryFields \cup
  {"position_planet", "altitude", "altitude_geopotential", "velocity_planet", "propellant_mass",
   "gravity_acceleration", "velocity_atmosphere", "temperature", "pressure", "density",
   "mach_number", "dynamic_pressure"}
TableFields == SteeringFields \cup {"euler_angles", "alpha"}
Known(s, fields, old) == [f \in DOMAIN s |-> IF f \in fields THEN s[f] ELSE old[f]]

(* ---- parts of the evaluation (used one by one by the conformance checks) - *)
SoundSpeedOf(par, temp) == IF par.atm THEN Atm!SoundSpeed(temp) ELSE F0
MachOf(par, va, temp) == Norm(va) \oslash SoundSpeedOf(par, temp)
DynPressure(rho, va) == (FHalf \otimes rho) \otimes Dot(va, va)
\* c0: the constant terms in degrees
EulerAngles(par, c0, val(_)) ==
  <<Rad(Poly(c0[1], par.roll[2], val(par.roll[1]))),
    Rad(Poly(c0[2], par.yaw[2], val(par.yaw[1]))),
    Rad(Poly(c0[3], par.pitch[2], val(par.pitch[1])))>>

(* ---- the whole evaluation ------------------------------------------------ *)
\* s: a state of which the primary fields count; old values show through in
\* the variables that are used before they are computed.
System(par, launch, c0, s) ==
  LET p == par.planet
      alt == Altitude(p, s.position)
      hgp == GeopotentialAltitude(p, alt)
      vp == PlanetVelocity(p, s.position, s.velocity)
      va == VSub(vp, par.wind)
      temp == IF par.atm THEN Atm!Temperature(hgp) ELSE F0
      pres == IF par.atm THEN Atm!Pressure(hgp) ELSE F0
      rho == IF par.atm THEN Atm!Density(temp, pres) ELSE F0
      s1 == [s EXCEPT !.position_planet = PlanetPosition(p, s.time, s.position),
                      !.altitude = alt, !.altitude_geopotential = hgp,
                      !.velocity_planet = vp, !.velocity_atmosphere = va,
                      !.propellant_mass = s.mass \ominus par.structure,
                      !.gravity_acceleration = Gravity(p, s.position),
                      !.temperature = temp, !.pressure = pres, !.density = rho,
                      !.mach_number = MachOf(par, va, temp),
                      !.dynamic_pressure = DynPressure(rho, va)]
      e == EulerAngles(par, c0, LAMBDA v : Value(v, s1))
      m == Attitude(launch, e)
      s2 == [s1 EXCEPT !.euler_angles = e, !.alpha = Alpha(MVec(m, va))]
      aero == AeroForce(s2.dynamic_pressure, par.area, s2.alpha,
                        Coefficient(par.drag, LAMBDA v : Value(v, s2)),
                        Coefficient(par.lift, LAMBDA v : Value(v, s2)),
                        Coefficient(par.side, LAMBDA v : Value(v, s2)))
      full == FullThrust(par.engines, pres)
      k == AutoThrottle(aero, full, par.limit \otimes s.mass)
      thrust == VScale(k, full)
      acc == VDiv(VAdd(aero, thrust), s.mass)
  IN [s2 EXCEPT !.aero_force_body = aero, !.throttle = k, !.thrust_force_body = thrust,
                !.massflow = k \otimes FullFlow(par.engines),
                !.vehicle_acceleration_body = acc,
                !.acceleration = VAdd(MVec(MTrans(m), acc), s2.gravity_acceleration)]

\* Whether the simulation is aborted in an evaluated state: certainly / maybe
Over(par, s, factor) ==
  \/ (par.limit \otimes factor) \prec Norm(s.vehicle_acceleration_body)
  \/ FIsNaN(s.throttle)
MustAbort(par, s) == Over(par, s, F("1.001001")) /\ FIsFinite(par.limit)
\* Numbers beyond all reason (overflows) are outside of what is specified
Overflow(s) == LET a == Norm(s.vehicle_acceleration_body) IN ~FIsFinite(a) \/ F("1e30") \prec a
MayAbort(par, s) == Over(par, s, F("1.000999")) \/ Overflow(s)

(* ---- one Runge-Kutta step ------------------------------------------------ *)
Primary(s, t, h, dr, dv, dm) ==
  [ZeroState EXCEPT !.time = s.time \oplus t, !.time_since_event = s.time_since_event \oplus t,
                    !.position = VAdd(s.position, VScale(h, dr)),
                    !.velocity = VAdd(s.velocity, VScale(h, dv)),
                    !.mass = s.mass \oplus (h \otimes dm)]
Third == F1 \oslash F("3")
Sixth == F1 \oslash F("6")
Weighted(a, b, c, d) == (Sixth \otimes (a \oplus d)) \oplus (Third \otimes (b \oplus c))
VWeighted(a, b, c, d) == VAdd(VScale(Sixth, VAdd(a, d)), VScale(Third, VAdd(b, c)))

\* sys(s): the evaluation.  The result carries the evaluated new state and the
\* states in between (in which the simulation may be aborted as well).
RungeKutta(sys(_), s, h) ==
  LET hh == FHalf \otimes h
      s1 == sys(Primary(s, F0, F0, VZero, VZero, F0))
      s2 == sys(Primary(s, hh, hh, s1.velocity, s1.acceleration, s1.massflow))
      s3 == sys(Primary(s, hh, hh, s2.velocity, s2.acceleration, s2.massflow))
      s4 == sys(Primary(s, h, h, s3.velocity, s3.acceleration, s3.massflow))
      new == sys(Primary(s, h, h,
                   VWeighted(s1.velocity, s2.velocity, s3.velocity, s4.velocity),
                   VWeighted(s1.acceleration, s2.acceleration, s3.acceleration, s4.acceleration),
                   Weighted(s1.massflow, s2.massflow, s3.massflow, s4.massflow)))
  IN [new |-> new, stages |-> <<s1, s2, s3, s4, new>>]

(* ---- how well numbers are determined --------------------------------------- *)
\* The same state, disturbed by a little more than rounding errors
Off(x, d) == x \otimes (F1 \oplus F(d))
DisturbedState(s) ==
  [s EXCEPT !.time = Off(@, "1e-14"), !.time_since_event = Off(@, "1e-14"), !.mass = Off(@, "-1e-14"),
            !.position = <<Off(@[1], "1e-14"), Off(@[2], "-0.7e-14"), Off(@[3], "0.4e-14")>>,
            !.velocity = <<Off(@[1], "-0.8e-14"), Off(@[2], "1e-14"), Off(@[3], "0.6e-14")>>]
\* What may separate numbers that a disturbance separates as x and y
Spread(x, y) == LET d == F("10") \otimes FAbs(x \ominus y) IN IF FIsFinite(d) THEN d ELSE FInf
VSpread(x, y) == FMax(FMax(Spread(x[1], y[1]), Spread(x[2], y[2])), Spread(x[3], y[3]))

(* ---- the start of a mission ---------------------------------------------- *)
\* Geocentric from geodetic latitude: the normal of the ellipsoid at
\* (cos b, sin b) * r has the slope tan(b) * (re/rp)^2
Geocentric(p, lat) == FAtan(FTan(lat) \oslash Oblateness(p))
LaunchOf(p, init) == <<Geocentric(p, Rad(init.latitude)), Rad(init.longitude), Rad(init.azimuth)>>
StartPosition(p, init) ==
  LET l == LaunchOf(p, init) IN
  VScale(SurfaceRadius(p, FSin(l[1])) \oplus init.altitude,
         <<FCos(l[1]) \otimes FCos(l[2]), FCos(l[1]) \otimes FSin(l[2]), FSin(l[1])>>)
=============================================================================
