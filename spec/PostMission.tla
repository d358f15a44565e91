---------------------------- MODULE PostMission -----------------------------
(* The parameters of a phase and how a mission sets them.                    *)
(*                                                                           *)
(* A mission is the sequence of its phase configurations, each the record of *)
(* the JSON object with null members left out (null means not given).        *)
EXTENDS PostPlanet, PostVehicle

Opt(c, f, default) == IF HasField(c, f) THEN c[f] ELSE default

\* The parameters in force before the first phase
DefaultPar ==
  [planet |-> Spherical, atm |-> FALSE, wind |-> VZero,
   structure |-> F0, area |-> F0,
   drag |-> NoTable, lift |-> NoTable, side |-> NoTable, engines |-> <<>>,
   limit |-> FInf,
   roll |-> <<"time", <<F0, F0, F0>>>>, yaw |-> <<"time", <<F0, F0, F0>>>>,
   pitch |-> <<"time", <<F0, F0, F0>>>>,
   step |-> F1, crit |-> <<"time_since_event", F0>>]

None == <<>>
\* The parameters of a phase with configuration c after one with parameters p
Overlay(p, c) ==
  LET v == Opt(c, "vehicle", None)
      a == Opt(c, "atmosphere", None)
      s == Opt(c, "steering", None)
      lim == Opt(c, "max_acceleration", p.limit)
  IN [planet |-> IF HasField(c, "planet_model") THEN PlanetOf(c.planet_model) ELSE p.planet,
      atm |-> Opt(a, "enabled", p.atm),
      wind |-> Opt(a, "wind", p.wind),
      structure |-> Opt(v, "structure_mass", p.structure),
      area |-> Opt(v, "reference_area", p.area),
      drag |-> Opt(v, "drag_coeff", p.drag),
      lift |-> Opt(v, "lift_coeff", p.lift),
      side |-> Opt(v, "side_force_coeff", p.side),
      engines |-> Opt(v, "engines", p.engines),
      limit |-> IF FEq(lim, F("-1")) THEN FInf ELSE lim,
      roll |-> Opt(s, "roll", p.roll),
      yaw |-> Opt(s, "yaw", p.yaw),
      pitch |-> Opt(s, "pitch", p.pitch),
      step |-> Opt(c, "stepsize", p.step),
      crit |-> Opt(c, "end_criterion", p.crit)]

\* The mass at the start of a phase with configuration c and parameters p (in
\* force), if the vehicle had the mass m and the remaining propellant prop
StartMass(p, c, m, prop) ==
  LET v == Opt(c, "vehicle", None) IN
  IF HasField(v, "propellant_mass") THEN p.structure \oplus v.propellant_mass
  ELSE IF HasField(v, "structure_mass") THEN prop \oplus v.structure_mass
  ELSE m

RECURSIVE ParAfter(_, _)
\* Parameters in force in phase k of mission m
ParAfter(m, k) == IF k = 0 THEN DefaultPar ELSE Overlay(ParAfter(m, k - 1), m[k])

(* ---- the mission written out in full ------------------------------------ *)
PlanetJson(p) == [kind |-> "custom", equatorial_radius |-> p.re, polar_radius |-> p.rp,
                  gravitational_parameters |-> <<p.mu, p.j2, p.j3, p.j4>>, rotation_rate |-> p.rate]
MassPart(c) == LET v == Opt(c, "vehicle", None) IN
               [f \in {"structure_mass", "propellant_mass"} \cap DOMAIN v |-> v[f]]
InitPart(c) == [f \in {"init"} \cap DOMAIN c |-> c[f]]
Merge(r, s) == [f \in DOMAIN r \cup DOMAIN s |-> IF f \in DOMAIN s THEN s[f] ELSE r[f]]
\* The configuration that sets every parameter (and the same masses) to p
FullConfig(p, c) ==
  Merge(InitPart(c),
    [planet_model |-> PlanetJson(p.planet),
     atmosphere |-> [enabled |-> p.atm, wind |-> p.wind],
     vehicle |-> Merge(MassPart(c),
        [reference_area |-> p.area, drag_coeff |-> p.drag, lift_coeff |-> p.lift,
         side_force_coeff |-> p.side, engines |-> p.engines]),
     max_acceleration |-> IF FIsFinite(p.limit) THEN p.limit ELSE F("-1"),
     steering |-> [roll |-> p.roll, yaw |-> p.yaw, pitch |-> p.pitch],
     stepsize |-> p.step, end_criterion |-> p.crit])
Expand(m) == [k \in 1..Len(m) |-> FullConfig(ParAfter(m, k), m[k])]
=============================================================================
