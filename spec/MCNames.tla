------------------------------ MODULE MCNames --------------------------------
(* The names of the state variables and what they stand for: the catalogue   *)
(* of the configuration language and that of the equations of motion are the *)
(* same; names follow the naming rule and mean different quantities; and in  *)
(* the evaluation of a state, a name used for steering or in a table stands  *)
(* for the value the evaluated state has, unless that is not known yet: then *)
(* it counts as zero.                                                        *)
EXTENDS PostDyn, TLC
Lang == INSTANCE PostConfig
VARIABLES v, place, world

Vectors == {f \in DOMAIN ZeroState : ZeroState[f] = VZero}
Scalars == DOMAIN ZeroState \ Vectors
\* The naming rule
Rule(n) ==
  LET r == VarRef[n] IN
  IF r[1] = "euler_angles" THEN n = "euler_angles_" \o <<"roll", "yaw", "pitch">>[r[2]]
  ELSE IF r[2] = 0 THEN n = r[1] /\ r[1] \in Scalars
  ELSE r[1] \in Vectors /\ n = r[1] \o <<"1", "2", "3", "_norm">>[r[2]]
Same == Lang!VariableNames = VarNames
Ruled == \A n \in VarNames : Rule(n)
Distinct == \A a, b \in VarNames : a # b => VarRef[a] # VarRef[b]
\* Everything a state shows has names, but for the norms of the place on the planet and of the angles
Complete == \A f \in DOMAIN ZeroState :
  {VarRef[n][2] : n \in {m \in VarNames : VarRef[m][1] = f}} =
    IF f \in Scalars THEN {0} ELSE IF f \in {"position_planet", "euler_angles"} THEN 1..3 ELSE 1..4
Count == Lang!Cardinality(VarNames) = 56

(* A vehicle in the air in which every quantity has a value of its own *)
Tab(n) == [x |-> <<n, <<F("-1"), F("1")>>>>, data |-> <<F("-0.5"), F("1.5")>>]
Worlds == <<[alt |-> "3000", limit |-> FInf], [alt |-> "20000", limit |-> F("7")]>>
Par0 == [DefaultPar EXCEPT
   !.planet = Smithsonian, !.atm = TRUE, !.wind = <<F("20"), F("-30"), F("10")>>, !.structure = F("1000"), !.area = F("0.5"),
   !.engines = <<[incidence |-> <<F("0.1"), F("-0.2")>>, thrust_vac |-> F("30000"), isp_vac |-> F("300"), exit_area |-> F("0.01")]>>,
   !.limit = Worlds[world].limit,
   !.roll = <<"time", <<F("2"), F0, F0>>>>, !.yaw = <<"time", <<F("-3"), F0, F0>>>>, !.pitch = <<"time", <<F("1"), F0, F0>>>>]
Par == CASE place = "roll" -> [Par0 EXCEPT !.roll = <<v, <<F("1.1e-3"), F0, F0>>>>]
         [] place = "yaw" -> [Par0 EXCEPT !.yaw = <<v, <<F("1.1e-3"), F0, F0>>>>]
         [] place = "pitch" -> [Par0 EXCEPT !.pitch = <<v, <<F("1.1e-3"), F0, F0>>>>]
         [] place \in {"drag", "lift", "side"} -> [Par0 EXCEPT ![place] = Tab(v)]
Site == [latitude |-> F("40"), longitude |-> F("30"), azimuth |-> F("70"), altitude |-> F(Worlds[world].alt)]
Launch == LaunchOf(Par.planet, Site)
Start == LET r == StartPosition(Par.planet, Site) IN
  [ZeroState EXCEPT !.time = F("12"), !.time_since_event = F("5"), !.position = r, !.mass = F("1500"),
                    !.velocity = VAdd(GroundVelocity(Par.planet, r), <<F("50"), F("60"), F("-40")>>)]
C == <<F("1"), F("2"), F("-3")>>
State == System(Par, Launch, C, Start)

Places == {"roll", "yaw", "pitch", "drag", "lift", "side"}
Init == v = "time" /\ place = "roll" /\ world = 1
Next == v = "time" /\ place = "roll" /\ world = 1 /\ v' \in VarNames /\ place' \in Places /\ world' \in 1..Len(Worlds)

Coeff(n, x) == Coefficient(Tab(n), LAMBDA m : x)
\* What a name stands for where it is used
Meant == Value(v, Known(State, IF place \in {"roll", "yaw", "pitch"} THEN SteeringFields ELSE TableFields, ZeroState))
Steered(i, c) == FNear(State.euler_angles[i], Rad(c \oplus (F("1.1e-3") \otimes Meant)), F("1e-12"), F("1e-12"))
Used ==
  CASE place = "roll" -> Steered(1, C[1]) [] place = "yaw" -> Steered(2, C[2]) [] place = "pitch" -> Steered(3, C[3])
    [] OTHER -> LET c == Coeff(v, Meant)
                    z(q) == IF place = q THEN c ELSE F0
                    f == AeroForce(State.dynamic_pressure, Par.area, State.alpha, z("drag"), z("lift"), z("side"))
                IN VNearAt(State.aero_force_body, f, F("1e-12"), F1 \oplus Norm(f))
\* In this world, all quantities but forces differ from zero, so that they could be told apart
Alive == \A n \in VarNames : LET x == Value(n, State) IN
         FEq(x, F0) => VarRef[n][1] \in {"aero_force_body", "throttle", "thrust_force_body", "massflow", "vehicle_acceleration_body"}
\* What is not known yet is zero, everything else is not
Zero == FEq(Meant, F0) <=> VarRef[v][1] \notin (IF place \in {"roll", "yaw", "pitch"} THEN SteeringFields ELSE TableFields)
=============================================================================
