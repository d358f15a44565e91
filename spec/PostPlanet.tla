----------------------------- MODULE PostPlanet -----------------------------
(* The planet models: shape, gravity, rotation.                              *)
EXTENDS Vec, Sequences

MeterPerFoot == F("0.3048")
CubicMeterPerCubicFoot == MeterPerFoot \otimes MeterPerFoot \otimes MeterPerFoot
EarthRate == F("7.29211e-5")

\* [re, rp: radii in m; mu in m^3/s^2; j2, j3, j4: harmonics; rate in rad/s]
Spherical == [re |-> F("2.0925741e7") \otimes MeterPerFoot,
              rp |-> F("2.0925741e7") \otimes MeterPerFoot,
              mu |-> F("1.4076539e16") \otimes CubicMeterPerCubicFoot,
              j2 |-> F0, j3 |-> F0, j4 |-> F0, rate |-> EarthRate]
Fisher == [Spherical EXCEPT !.rp = F("2.0855590e7") \otimes MeterPerFoot,
                            !.j2 = F("1.0823e-3")]
Smithsonian == [Spherical EXCEPT !.rp = F("2.0855590e7") \otimes MeterPerFoot,
                                 !.mu = F("1.407645794e16") \otimes CubicMeterPerCubicFoot,
                                 !.j2 = F("1.082639e-3"), !.j3 = F("-2.565e-6"), !.j4 = F("-1.608e-6")]
\* c: the JSON record of a planet model
PlanetOf(c) ==
  CASE c.kind = "spherical" -> Spherical
    [] c.kind = "fisher_1960" -> Fisher
    [] c.kind = "smithsonian" -> Smithsonian
    [] c.kind = "custom" -> [re |-> c.equatorial_radius, rp |-> c.polar_radius,
                             mu |-> c.gravitational_parameters[1], j2 |-> c.gravitational_parameters[2],
                             j3 |-> c.gravitational_parameters[3], j4 |-> c.gravitational_parameters[4],
                             rate |-> c.rotation_rate]

(* ---- shape -------------------------------------------------------------- *)
Oblateness(p) == Sq(p.re \oslash p.rp)
\* Distance of the surface from the centre in the direction with the sine s of
\* the geocentric latitude:  (r cos)^2/re^2 + (r sin)^2/rp^2 = 1
SurfaceRadius(p, s) == p.re \oslash FSqrt(F1 \oplus ((Oblateness(p) \ominus F1) \otimes Sq(s)))
Altitude(p, r) == LET n == Norm(r) IN n \ominus SurfaceRadius(p, r[3] \oslash n)
MeanRadius(p) == FHalf \otimes (p.re \oplus p.rp)
GeopotentialAltitude(p, alt) == (MeanRadius(p) \otimes alt) \oslash (MeanRadius(p) \oplus alt)

(* ---- rotation ----------------------------------------------------------- *)
PlanetPosition(p, t, r) == MVec(RotZ(p.rate \otimes t), r)
GroundVelocity(p, r) == <<FNeg(p.rate \otimes r[2]), p.rate \otimes r[1], F0>>
PlanetVelocity(p, r, v) == VSub(v, GroundVelocity(p, r))

(* ---- gravity ------------------------------------------------------------ *)
(* Gradient of  U = mu/r (1 - SUM n=2..4: Jn (re/r)^n Pn(z/r)),  Pn the      *)
(* Legendre polynomials.  With q = re/r, s = z/r:                            *)
(*   dU/dx_i = -mu x_i/r^3 (1 - SUM (n+1) Jn q^n Pn(s))                      *)
(*             - mu/r^2 SUM Jn q^n Pn'(s) (d_i3 - s x_i/r)                   *)
Leg2(s) == (F("1.5") \otimes Sq(s)) \ominus FHalf
Leg3(s) == ((F("2.5") \otimes Sq(s)) \ominus F("1.5")) \otimes s
Leg4(s) == (((F("4.375") \otimes Sq(s)) \ominus F("3.75")) \otimes Sq(s)) \oplus F("0.375")
DLeg2(s) == F("3") \otimes s
DLeg3(s) == (F("7.5") \otimes Sq(s)) \ominus F("1.5")
DLeg4(s) == ((F("17.5") \otimes Sq(s)) \ominus F("7.5")) \otimes s

Gravity(p, r) ==
  LET n == Norm(r)
      q == p.re \oslash n
      s == r[3] \oslash n
      a2 == p.j2 \otimes Sq(q)
      a3 == p.j3 \otimes Cube(q)
      a4 == p.j4 \otimes Sq(Sq(q))
      radial == F1 \ominus (((F("3") \otimes a2 \otimes Leg2(s)) \oplus (F("4") \otimes a3 \otimes Leg3(s)))
                            \oplus (F("5") \otimes a4 \otimes Leg4(s)))
      polar == ((a2 \otimes DLeg2(s)) \oplus (a3 \otimes DLeg3(s))) \oplus (a4 \otimes DLeg4(s))
      g == p.mu \oslash Sq(n)
      u == VDiv(r, n)
      c == FNeg(g) \otimes (radial \ominus (polar \otimes s))
  IN VAdd(VScale(c, u), <<F0, F0, FNeg(g) \otimes polar>>)
\* What rounding errors are relative to: the sum of the sizes of the terms,
\* which may cancel, and are large inside the planet
GravityScale(p, r) ==
  LET n == Norm(r)
      q == p.re \oslash n
  IN (p.mu \oslash Sq(n)) \otimes
     (F1 \oplus (F("10") \otimes ((FAbs(p.j2) \otimes Sq(q)) \oplus
        ((FAbs(p.j3) \otimes Cube(q)) \oplus (FAbs(p.j4) \otimes Sq(Sq(q)))))))
=============================================================================
