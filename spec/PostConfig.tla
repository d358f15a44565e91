----------------------------- MODULE PostConfig -----------------------------
(* The configuration language: which JSON documents are configurations.      *)
(*                                                                           *)
(* A JSON value is the tuple of its kind and content: <<"null">>,            *)
(* <<"bool", b>>, <<"num", float>>, <<"str", s>>, <<"arr", <<v1, ...>>>>,    *)
(* <<"obj", <<<<name1, v1>>, ...>>>>, in the order written, with duplicates. *)
EXTENDS PostTables, FiniteSets

(* ---- schemas -------------------------------------------------------------- *)
Num == <<"num">>
Bool == <<"bool">>
Enum(S) == <<"enum", S>>
Fixed(n, s) == <<"fixed", n, s>>      \* array of n times s
ListOf(s) == <<"list", s>>            \* array of any length
Pair(a, b) == <<"pair", a, b>>        \* array of two
Obj(req, opt) == <<"obj", req, opt>>  \* required and optional members: name -> schema
Planet == <<"planet">>
TableDoc == <<"table">>

VariableNames == {
  "time", "time_since_event", "position1", "position2", "position3", "position_norm",
  "position_planet1", "position_planet2", "position_planet3", "altitude", "altitude_geopotential",
  "velocity1", "velocity2", "velocity3", "velocity_norm",
  "velocity_planet1", "velocity_planet2", "velocity_planet3", "velocity_planet_norm",
  "velocity_atmosphere1", "velocity_atmosphere2", "velocity_atmosphere3", "velocity_atmosphere_norm",
  "acceleration1", "acceleration2", "acceleration3", "acceleration_norm",
  "thrust_force_body1", "thrust_force_body2", "thrust_force_body3", "thrust_force_body_norm",
  "aero_force_body1", "aero_force_body2", "aero_force_body3", "aero_force_body_norm",
  "vehicle_acceleration_body1", "vehicle_acceleration_body2", "vehicle_acceleration_body3",
  "vehicle_acceleration_body_norm",
  "gravity_acceleration1", "gravity_acceleration2", "gravity_acceleration3", "gravity_acceleration_norm",
  "mass", "propellant_mass", "massflow", "temperature", "pressure", "density", "mach_number",
  "dynamic_pressure", "alpha", "euler_angles_roll", "euler_angles_yaw", "euler_angles_pitch", "throttle" }
Variable == Enum(VariableNames)
NoMembers == [x \in {} |-> Num]
Axis == Pair(Variable, Fixed(3, Num))
Init == Obj([latitude |-> Num, longitude |-> Num, azimuth |-> Num, altitude |-> Num], NoMembers)
Engine == Obj([incidence |-> Fixed(2, Num), thrust_vac |-> Num, isp_vac |-> Num, exit_area |-> Num], NoMembers)
CustomPlanet == Obj([equatorial_radius |-> Num, polar_radius |-> Num,
                     gravitational_parameters |-> Fixed(4, Num), rotation_rate |-> Num], NoMembers)
Vehicle == Obj(NoMembers,
  [structure_mass |-> Num, propellant_mass |-> Num, reference_area |-> Num,
   drag_coeff |-> TableDoc, lift_coeff |-> TableDoc, side_force_coeff |-> TableDoc, engines |-> ListOf(Engine)])
PhaseDoc == Obj(NoMembers,
  [init |-> Init, vehicle |-> Vehicle, planet_model |-> Planet,
   steering |-> Obj(NoMembers, [roll |-> Axis, yaw |-> Axis, pitch |-> Axis]),
   atmosphere |-> Obj(NoMembers, [enabled |-> Bool, wind |-> Fixed(3, Num)]),
   max_acceleration |-> Num, stepsize |-> Num, end_criterion |-> Pair(Variable, Num)])
MissionDoc == ListOf(PhaseDoc)

(* ---- verdicts --------------------------------------------------------------- *)
\* "no" if anything is certainly wrong, "any" if the documentation leaves it open
All(S) == IF "no" \in S THEN "no" ELSE IF "any" \in S THEN "any" ELSE "yes"
YesIf(b) == IF b THEN "yes" ELSE "no"

Names(t) == {t[2][i][1] : i \in 1..Len(t[2])}
Distinct(t) == Cardinality(Names(t)) = Len(t[2])
Member(t, n) == t[2][CHOOSE i \in 1..Len(t[2]) : t[2][i][1] = n][2]

\* The plain value of an array tree: numbers and nested sequences
RECURSIVE Plain(_)
Plain(t) == CASE t[1] = "num" -> t[2]
              [] t[1] = "str" -> t[2]
              [] t[1] = "arr" -> [i \in 1..Len(t[2]) |-> Plain(t[2][i])]

RECURSIVE Judge(_, _)
Judge(s, t) ==
  CASE s[1] = "num" -> YesIf(t[1] = "num")
    [] s[1] = "bool" -> YesIf(t[1] = "bool")
    [] s[1] = "enum" -> IF t[1] = "obj" /\ Len(t[2]) = 1 /\ t[2][1][2][1] = "null" THEN "any"   \* {"mass": null}
                        ELSE YesIf(t[1] = "str" /\ t[2] \in s[2])
    [] s[1] = "fixed" -> IF t[1] # "arr" \/ Len(t[2]) # s[2] THEN "no"
                         ELSE All({Judge(s[3], t[2][i]) : i \in 1..Len(t[2])})
    [] s[1] = "list" -> IF t[1] # "arr" THEN "no" ELSE All({Judge(s[2], t[2][i]) : i \in 1..Len(t[2])})
    [] s[1] = "pair" -> IF t[1] # "arr" \/ Len(t[2]) # 2 THEN "no"
                        ELSE All({Judge(s[2], t[2][1]), Judge(s[3], t[2][2])})
    [] s[1] = "obj" ->
         IF t[1] = "arr" THEN "any"         \* members in an array: undocumented
         ELSE IF t[1] # "obj" \/ ~Distinct(t) \/ ~(DOMAIN s[2] \subseteq Names(t))
                 \/ ~(Names(t) \subseteq DOMAIN s[2] \cup DOMAIN s[3]) THEN "no"
         ELSE All({LET n == t[2][i][1] v == t[2][i][2] IN
                   IF n \in DOMAIN s[2] THEN Judge(s[2][n], v)
                   ELSE IF v[1] = "null" THEN "yes" ELSE Judge(s[3][n], v) : i \in 1..Len(t[2])})
    [] s[1] = "planet" ->
         IF t[1] = "str" THEN (IF t[2] = "fisher1960" THEN "any"   \* older spelling
                               ELSE YesIf(t[2] \in {"spherical", "fisher_1960", "smithsonian"}))
         ELSE IF t[1] # "obj" \/ Len(t[2]) # 1 THEN "no"
         ELSE IF t[2][1][1] = "custom" THEN Judge(CustomPlanet, t[2][1][2])
         ELSE IF t[2][1][2][1] = "null" THEN "any" ELSE "no"   \* {"spherical": null}
    [] s[1] = "table" ->
         IF t[1] = "arr" THEN "any"
         ELSE IF t[1] # "obj" \/ ~Distinct(t) THEN "no"
         ELSE LET ns == Names(t)
                  open == {n \in ns \cap {"y", "z", "interpolator"} : Member(t, n)[1] = "null"}
                  args == ns \cap {"x", "y", "z"}
                  depth == Cardinality(args)
                  Deep[d \in 0..3] == IF d = 0 THEN Num ELSE ListOf(Deep[d - 1])
              IN IF open # {} THEN "any"         \* null for a part of a table
                 ELSE IF ~({"x", "data"} \subseteq ns) \/ ~(ns \subseteq {"x", "y", "z", "data", "interpolator"})
                         \/ ("z" \in ns /\ "y" \notin ns) THEN "no"
                 ELSE LET parts == All({Judge(Pair(Variable, ListOf(Num)), Member(t, n)) : n \in args}
                                       \cup {Judge(Deep[depth], Member(t, "data"))}
                                       \cup (IF "interpolator" \in ns THEN {Judge(Enum({"linear"}), Member(t, "interpolator"))} ELSE {}))
                      IN IF parts # "yes" THEN parts
                         ELSE YesIf(WellFormed([n \in args \cup {"data"} |-> Plain(Member(t, n))]))

Verdict(t) == Judge(MissionDoc, t)
\* Only the first phase has to have an initialisation, and only to be run
Runnable(t) == Len(t[2]) = 0 \/ LET p == t[2][1] IN
               p[1] = "obj" /\ "init" \in Names(p) /\ Member(p, "init")[1] # "null"
=============================================================================
