------------------------------ MODULE ConfOut -------------------------------
(* Does the output tell what happened?  Cases are missions whose phases end  *)
(* by the clock, so that the states after every attempted time step are      *)
(* known: they are returned by the same mission cut off there.               *)
(* Case: [id, phases: <<[start, after: <<state, ...>>, part: BOOLEAN]>>,     *)
(* recs, end]: after: the states after 1, 2, ... whole steps and, if part,   *)
(* after the part of a step that is left (for which a whole step was tried   *)
(* and discarded first).  recs: <<"P", number>> and <<"R", time, position,   *)
(* velocity, altitude, propellant>> with numbers as printed, as text.        *)
EXTENDS Flt, Sequences, Naturals, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c,      \* case
          k, i,   \* phase, and attempts made in it
          l       \* records seen
vars == <<c, k, i, l>>
Case == Cases[c]
Phases == Case.phases
Recs == Case.recs

Attempts(p) == Len(p.after) + (IF p.part THEN 1 ELSE 0)
\* The state the phase is in after attempt n
After(p, n) ==
  IF ~p.part \/ n < Len(p.after) THEN p.after[n]
  ELSE IF n = Len(p.after) THEN (IF n = 1 THEN p.start ELSE p.after[n - 1])   \* the discarded one
  ELSE p.after[n - 1]

\* A whole number no more than a half away
Whole(t, x) == FEq(FAbs(F(t) \ominus F(FRoundStr(F(t)))), F("0"))
               /\ FNear(F(t), x, F("1e-15"), F("0.5"))
Shows(r, s) ==
  /\ r[1] = "R" /\ Whole(r[2], s.time)
  /\ \A j \in 1..3 : Whole(r[3][j], s.position_planet[j]) /\ Whole(r[4][j], s.velocity[j])
  /\ Whole(r[5], s.altitude) /\ Whole(r[6], s.propellant_mass)

Ended == IF k = 0 THEN TRUE ELSE i = Attempts(Phases[k])
Init == c \in 1..Len(Cases) /\ k = 0 /\ i = 0 /\ l = 0
Announce == /\ k < Len(Phases) /\ Ended
            /\ l < Len(Recs) /\ Recs[l + 1] = <<"P", k + 1>>
            /\ k' = k + 1 /\ i' = 0 /\ l' = l + 1
Record == /\ k > 0 /\ ~Ended
          /\ l < Len(Recs) /\ Shows(Recs[l + 1], After(Phases[k], i + 1))
          /\ i' = i + 1 /\ l' = l + 1 /\ UNCHANGED k
Next == UNCHANGED c /\ (Announce \/ Record)
Complete == k = Len(Phases) /\ Ended /\ l = Len(Recs)
Inv == Complete => PrintT(<<"ACCEPT", Case.id>>)
=============================================================================
