------------------------------ MODULE MCMission ------------------------------
(* Laws of the inheritance of parameters: every parameter in force is the    *)
(* one set last, whatever else is set; writing a mission out in full changes *)
(* nothing.  All missions of up to Phases phases in which two parameters are *)
(* each unset or set to one of two values in every phase.                    *)
EXTENDS PostMission, TLC, Integers
CONSTANT Phases
VARIABLES a, b, pa, pb     \* two parameters and what is done to them in each phase

Tab(x) == [x |-> <<"time", <<F0, F1>>>>, data |-> <<FInt(x), FInt(x + 1)>>]
Ax(x) == <<"time", <<FInt(x), F0, F0>>>>
Eng(x) == <<[incidence |-> <<F0, F0>>, thrust_vac |-> FInt(x), isp_vac |-> FInt(300), exit_area |-> F0]>>
\* parameter -> <<group, member, value 1, value 2, field in force>>
Params == [
  planet |-> <<"", "planet_model", [kind |-> "smithsonian"], [kind |-> "fisher_1960"]>>,
  atm |-> <<"atmosphere", "enabled", TRUE, FALSE>>,
  wind |-> <<"atmosphere", "wind", <<F1, F0, F0>>, VZero>>,
  structure |-> <<"vehicle", "structure_mass", FInt(3), FInt(4)>>,
  area |-> <<"vehicle", "reference_area", FInt(3), F0>>,
  drag |-> <<"vehicle", "drag_coeff", Tab(1), NoTable>>,
  lift |-> <<"vehicle", "lift_coeff", Tab(2), NoTable>>,
  side |-> <<"vehicle", "side_force_coeff", Tab(3), NoTable>>,
  engines |-> <<"vehicle", "engines", Eng(5), <<>>>>,
  limit |-> <<"", "max_acceleration", FInt(9), FInt(-1)>>,
  roll |-> <<"steering", "roll", Ax(1), Ax(0)>>,
  yaw |-> <<"steering", "yaw", Ax(2), Ax(0)>>,
  pitch |-> <<"steering", "pitch", Ax(3), Ax(0)>>,
  step |-> <<"", "stepsize", FInt(2), FInt(1)>>,
  crit |-> <<"", "end_criterion", <<"mass", FInt(2)>>, <<"time", FInt(1)>>>> ]
P == DOMAIN Params
InForce(p, x) == CASE p = "planet" -> PlanetOf(x)
                   [] p = "limit" -> IF FEq(x, FInt(-1)) THEN FInf ELSE x
                   [] OTHER -> x

Put(c, p, x) ==
  IF x = 0 THEN c
  ELSE LET g == Params[p][1] m == Params[p][2] v == Params[p][2 + x] IN
       IF g = "" THEN Merge(c, [f \in {m} |-> v])
       ELSE Merge(c, [f \in {g} |-> Merge(Opt(c, g, [z \in {} |-> 0]), [f2 \in {m} |-> v])])
Empty == [z \in {} |-> 0]
Mission == [k \in 1..Len(pa) |-> Put(Put(Empty, a, pa[k]), b, pb[k])]
Sets == UNION {[1..n -> 0..2] : n \in 1..Phases}
Init == a \in P /\ b \in P /\ a # b /\ pa = <<>> /\ pb = <<>>
Next == pa = <<>> /\ pa' \in Sets /\ pb' \in [DOMAIN pa' -> 0..2] /\ UNCHANGED <<a, b>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
LastSet(s, k) == LET is == {i \in 1..k : s[i] # 0} IN IF is = {} THEN 0 ELSE s[Max(is)]
Wanted(p, s, k) == LET x == LastSet(s, k) IN IF x = 0 THEN DefaultPar[p] ELSE InForce(p, Params[p][2 + x])
LastWins == \A k \in 1..Len(pa) : \A p \in P :
  ParAfter(Mission, k)[p] = (IF p = a THEN Wanted(a, pa, k) ELSE IF p = b THEN Wanted(b, pb, k) ELSE DefaultPar[p])
InFull == LET m == Mission e == Expand(m) IN
          /\ \A k \in 1..Len(m) : ParAfter(e, k) = ParAfter(m, k)
          /\ Expand(e) = e
\* A phase written out in full does not depend on the phases before (but for
\* the structure mass, which is never written out, as setting it sets the mass)
Forgets == LET m == Mission e == Expand(m) IN
           \A k \in 1..Len(m) : \A p \in P \ {"structure"} : Overlay(DefaultPar, e[k])[p] = ParAfter(m, k)[p]
=============================================================================
