------------------------------ MODULE MCPlanet -------------------------------
(* Laws of the planet models, on a grid of planets and positions: gravity is *)
(* the gradient of the potential, symmetric about the axis, and distinguishes*)
(* north from south by J3 only; the launch site has the given geodetic       *)
(* latitude and altitude; the ground turns with the planet.                  *)
EXTENDS PostDyn, TLC, Integers
CONSTANTS LatStep, Radii
VARIABLES pl, lat, long, rad     \* numbers of planet, latitude, longitude, radius

R(a) == Rad(FInt(a))
RadiiQ == {1, 3}
RadiiT == 1..6
Planets == <<
  Spherical, Fisher, Smithsonian,
  [Spherical EXCEPT !.j2 = F("0.02"), !.rp = F("6e6")],
  [Spherical EXCEPT !.j3 = F("0.03"), !.rp = F("7e6")],
  [Spherical EXCEPT !.j4 = F("-0.04"), !.re = F("2e6"), !.rp = F("1.5e6"), !.mu = F("1e13"), !.rate = F("1e-3")],
  [Spherical EXCEPT !.j2 = F("-0.05"), !.j3 = F("0.02"), !.j4 = F("0.01"), !.rate = F("-2e-4")] >>
Init == /\ pl \in 1..Len(Planets) /\ lat \in {x \in -90..90 : x % LatStep = 0} /\ long \in {0, 77, 180, 280}
        /\ rad \in Radii
Next == UNCHANGED <<pl, lat, long, rad>>

P == Planets[pl]
Height == <<F("0"), F("1e4"), F("4e5"), F("3e6"), F("-5e3"), F("4e7")>>[rad]
At(la, lo) == LET a == R(la) b == R(lo) IN
  VScale(P.re \oplus Height, <<FCos(a) \otimes FCos(b), FCos(a) \otimes FSin(b), FSin(a)>>)
Pos == At(lat, long)

\* mu/r (1 - SUM Jn (re/r)^n Pn(sin lat))
Potential(r) ==
  LET n == Norm(r) q == P.re \oslash n s == r[3] \oslash n IN
  (P.mu \oslash n) \otimes
  (F1 \ominus (((P.j2 \otimes Sq(q) \otimes Leg2(s)) \oplus (P.j3 \otimes Cube(q) \otimes Leg3(s)))
               \oplus (P.j4 \otimes Sq(Sq(q)) \otimes Leg4(s))))
\* Legendre's recurrence gives the polynomials used
LegendreLaw ==
  LET s == FSin(R(lat)) IN
  /\ FNear(F("3") \otimes Leg3(s), (F("5") \otimes s \otimes Leg2(s)) \ominus (F2 \otimes s), F0, F("1e-14"))
  /\ FNear(F("4") \otimes Leg4(s), (F("7") \otimes s \otimes Leg3(s)) \ominus (F("3") \otimes Leg2(s)), F0, F("1e-14"))
Step == F("1e-4") \otimes Norm(Pos)
Move(i, d) == [Pos EXCEPT ![i] = @ \oplus d]
Gradient == [i \in 1..3 |-> (Potential(Move(i, Step)) \ominus Potential(Move(i, FNeg(Step)))) \oslash (F2 \otimes Step)]
GradientLaw == VNearAt(Gravity(P, Pos), Gradient, F("1e-6"), GravityScale(P, Pos))

Turn(v, lo) == MVec(MTrans(RotZ(R(lo))), v)
SymmetryLaw == VNearAt(Gravity(P, Turn(Pos, 33)), Turn(Gravity(P, Pos), 33), F("1e-12"), GravityScale(P, Pos))
Mirror(v) == <<v[1], v[2], FNeg(v[3])>>
NorthSouthLaw == FEq(P.j3, F0) => Gravity(P, Mirror(Pos)) = Mirror(Gravity(P, Pos))
                                  \/ VNearAt(Gravity(P, Mirror(Pos)), Mirror(Gravity(P, Pos)), F("1e-14"), GravityScale(P, Pos))
SphericalLaw == FEq(P.j2, F0) /\ FEq(P.j3, F0) /\ FEq(P.j4, F0) =>
                  VNearAt(Gravity(P, Pos), VScale(FNeg(P.mu \oslash Cube(Norm(Pos))), Pos), F("1e-14"), GravityScale(P, Pos))

\* The launch site
Site == StartPosition(P, [latitude |-> FInt(lat), longitude |-> FInt(long), azimuth |-> F0, altitude |-> Height])
SiteLaw ==
  LET r == StartPosition(P, [latitude |-> FInt(lat), longitude |-> FInt(long), azimuth |-> F0, altitude |-> F0])
      nx == Norm(<<r[1], r[2], F0>>) \oslash Sq(P.re)
      nz == r[3] \oslash Sq(P.rp)
      n == FSqrt(Sq(nx) \oplus Sq(nz))
  IN /\ FNear(nz \oslash n, FSin(R(lat)), F0, F("1e-12")) /\ FNear(nx \oslash n, FCos(R(lat)), F0, F("1e-12"))
     /\ FNear(Sq(Norm(<<r[1], r[2], F0>>) \oslash P.re) \oplus Sq(r[3] \oslash P.rp), F1, F0, F("1e-12"))
HeightLaw == FNear(Altitude(P, Site), Height, F0, F("1e-12") \otimes Norm(Site))
\* Geopotential altitude: the work against gravity of a sphere of the mean radius
GeopotentialLaw == ~FEq(Height, F0) =>
  FNear((F1 \oslash GeopotentialAltitude(P, Height)) \ominus (F1 \oslash Height), F2 \oslash (P.re \oplus P.rp), F("1e-9"), F("1e-12") \oslash FAbs(Height))
\* On the ground nothing moves relative to the planet
GroundLaw ==
  LET v == GroundVelocity(P, Site)
      t == F("123.4")
      fixed == PlanetPosition(P, F0, Site)
      later == MVec(MTrans(RotZ(P.rate \otimes t)), Site)
  IN /\ PlanetVelocity(P, Site, v) = VZero \/ VNearAt(PlanetVelocity(P, Site, v), VZero, F("1e-15"), Norm(v))
     /\ VNearAt(PlanetPosition(P, t, later), fixed, F("1e-14"), Norm(Site))
     \* eastwards, if it turns forwards: where the site goes
     /\ VNearAt(VSub(MVec(MTrans(RotZ(P.rate)), Site), MVec(RotZ(P.rate), Site)), VScale(F2, v), F("1e-5"), Norm(v))
     /\ FNear(Norm(v), FAbs(P.rate) \otimes Norm(<<Site[1], Site[2], F0>>), F("1e-14"), F0)
=============================================================================
