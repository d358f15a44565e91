----------------------------- MODULE MCEngines -------------------------------
(* Laws of the engines, over all sets of up to Most engines of a grid (with  *)
(* repetition) and air pressures: thrust and flow of the vehicle are the sums*)
(* over its engines in any order, every engine pushes along its axis with    *)
(* F - A p, and uses propellant whatever the pressure and its incidence.     *)
EXTENDS PostVehicle, TLC, Integers
CONSTANTS Most, Angles
VARIABLES es, p       \* engines (numbers), pressure

AnglesQ == {<<0, 0>>, <<20, -35>>, <<-90, 0>>, <<180, 10>>}
AnglesT == AnglesQ \cup {<<0, 90>>, <<45, 45>>, <<200, -120>>}
Kinds == {<<f, i, a>> : f \in {0, 7000}, i \in {250, 400}, a \in {0, 3}}
Engine(n) == [incidence |-> <<Rad(FInt(n[2][1])), Rad(FInt(n[2][2]))>>, thrust_vac |-> FInt(n[1][1]),
              isp_vac |-> FInt(n[1][2]), exit_area |-> FInt(n[1][3]) \oslash F("100")]
Grid == Kinds \X Angles
Init == p \in {0, 1000, 101325, 3000000} /\ es = <<>>
Next == Len(es) < Most /\ \E n \in Grid : es' = Append(es, n) /\ UNCHANGED p

E == [i \in 1..Len(es) |-> Engine(es[i])]
P == FInt(p)
Scale == ThrustScale(E, P) \oplus F1
Near(a, b) == VNearAt(a, b, F("1e-15"), F("16") \otimes Scale)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotate(s) == IF s = <<>> THEN s ELSE Append(Tail(s), Head(s))

\* The order does not matter
Order == /\ Near(FullThrust(E, P), FullThrust(Reverse(E), P)) /\ Near(FullThrust(E, P), FullThrust(Rotate(E), P))
         /\ FNear(FullFlow(E), FullFlow(Reverse(E)), F("1e-14"), F0)
\* Engines add up, whatever they have in common
Adds == \A n \in 0..Len(es) : LET a == SubSeq(E, 1, n) b == SubSeq(E, n + 1, Len(es)) IN
          /\ Near(FullThrust(E, P), VAdd(FullThrust(a, P), FullThrust(b, P)))
          /\ FNear(FullFlow(E), FullFlow(a) \oplus FullFlow(b), F("1e-14"), F0)
Twice == Near(FullThrust(E \o E, P), VScale(F2, FullThrust(E, P))) /\ FNear(FullFlow(E \o E), F2 \otimes FullFlow(E), F("1e-14"), F0)
Nothing == es = <<>> => FullThrust(E, P) = VZero /\ FEq(FullFlow(E), F0)
One == Len(es) = 1 =>
  LET e == E[1] t == FullThrust(E, P) f == e.thrust_vac \ominus (e.exit_area \otimes P) IN
  /\ FNear(Norm(t), FAbs(f), F("1e-14"), F("1e-12"))
  /\ (es[1][2] = <<0, 0>> => Near(t, <<f, F0, F0>>))
  \* straight back, up and to the side
  /\ (es[1][2] = <<-90, 0>> => Near(t, <<F0, F0, FNeg(f)>>))
  /\ (es[1][2] = <<0, 90>> => Near(t, <<F0, f, F0>>))
  \* the side component is that of the second angle, towards which it turns last
  /\ FNear(t[2], f \otimes FSin(e.incidence[2]), F("1e-14"), F("1e-12"))
\* Flow does not depend on where or in what air an engine works, and never fills the tanks
Flow == /\ FullFlow(E) \preceq F0
        /\ FullFlow([i \in 1..Len(es) |-> [E[i] EXCEPT !.incidence = <<F0, F0>>, !.exit_area = F0]]) = FullFlow(E)
\* An engine without thrust only has a pressure force
Still == Len(es) = 1 /\ es[1][1][1] = 0 => FEq(FullFlow(E), F0)
\* More pressure, less thrust along the axis
Falling == Len(es) = 1 => LET d == VSub(FullThrust(E, P), FullThrust(E, P \oplus F("1000"))) IN
           FNear(Norm(d), E[1].exit_area \otimes F("1000"), F("1e-9"), F("1e-9"))
=============================================================================
