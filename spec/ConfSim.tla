------------------------------ MODULE ConfSim -------------------------------
(* Trace validation: is what a run of the real code printed and returned a   *)
(* behaviour of PostSim over the worlds of its mission?  Every case of the   *)
(* file CASES is one run, [id, mission, tol, end, recs, state]: recs are its *)
(* output records, <<"P", n>> and <<"R", time, position_planet, velocity,    *)
(* altitude, propellant_mass>>.                                              *)
EXTENDS PostWorld, TLC, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
CaseMission(i) == Cases[i].mission
CONSTANT MaxDiscards
VARIABLES pc, k, w, h, discards, out, c, l

(* Two worlds run side by side: a is that of the specification, b the same   *)
(* but for tiny disturbances, a little more than rounding errors.  How far    *)
(* they drift apart tells how well the numbers are determined at all.        *)
Disturbed(x) == [x EXCEPT !.s = DisturbedState(@)]

Dist2(x) == LET d == WDist(x.a) e == WDist(x.b) IN
            [d |-> d.d, eps |-> FMax(d.eps, Spread(d.d, e.d)), b |-> e]
Attempt2(x, s) ==
  LET a == WAttempt(x.a, s.a) b == WAttempt(x.b, s.b)
      acc(y) == Norm(y.s.vehicle_acceleration_body)
      \* near the limit of the acceleration the one may abort and not the other
      known == VSpread(a.w.s.vehicle_acceleration_body, b.w.s.vehicle_acceleration_body) \preceq (F("1e-7") \otimes acc(a.w))
  IN [w |-> [a |-> a.w, b |-> Disturbed(b.w)],
      abort |-> IF known THEN a.abort \cup b.abort ELSE BOOLEAN]

S == INSTANCE PostSim WITH
  NPhases <- LAMBDA x : WNPhases(x.a), HasInit <- LAMBDA x : WHasInit(x.a),
  Enter <- LAMBDA x, n : [a |-> WEnter(x.a, n), b |-> Disturbed(WEnter(x.b, n))],
  Evaluate <- LAMBDA x : [a |-> WEvaluate(x.a), b |-> WEvaluate(x.b)],
  EvalAbort <- LAMBDA x : WEvalAbort(x.a) \cup WEvalAbort(x.b),
  BaseStep <- LAMBDA x : [a |-> WBaseStep(x.a), b |-> WBaseStep(x.b)], Attempt <- Attempt2, Dist <- Dist2,
  Met <- WMet, Crossed <- WCrossed,
  Shorter <- LAMBDA x, y, s : [a |-> WShorter(x, y, s.a), b |-> WShorter(x.b, y.b, s.b)]

Case == Cases[c]
Recs == Case.recs

\* Numbers that are not determined any more: nothing more to compare
Undetermined(x) ==
  \/ ~(Norm(x.a.s.position) \prec F("1e13") /\ Norm(x.a.s.velocity) \prec F("1e9"))
  \/ ~(VSpread(x.a.s.position, x.b.s.position) \preceq (F("1e-6") \otimes FMax(F1, Norm(x.a.s.position))))
  \/ ~(VSpread(x.a.s.velocity, x.b.s.velocity) \preceq (F("1e-5") \otimes FMax(F1, Norm(x.a.s.velocity))))
Wild ==
  \/ pc = "wild"
  \/ Undetermined(w)
  \* (a vehicle without mass is not specified)
  \/ pc = "step" /\ ~(F0 \prec (w.a.s.mass \oplus (h.a \otimes FullFlow(w.a.par.engines))))
  \/ pc = "step" /\ ~(Dist2(w).eps \preceq F("5e-4"))

\* A record shows x rounded to a whole number
Shows(r, x, y) == FNear(r, x, F("1e-9"), F("0.500001") \oplus Spread(x, y))
VShows(r, v, y) == LET n == VSpread(v, y) IN \A i \in 1..3 : FNear(r[i], v[i], F("1e-9"), F("0.500001") \oplus n)
MatchRecord(r, x) ==
  LET s == x.a.s t == x.b.s IN
  /\ r[1] = "R"
  /\ Shows(r[2], s.time, t.time) /\ VShows(r[3], s.position_planet, t.position_planet)
  /\ VShows(r[4], s.velocity, t.velocity)
  /\ Shows(r[5], s.altitude, t.altitude) /\ Shows(r[6], s.propellant_mass, t.propellant_mass)
Match(o) == IF o[1] = "phase" THEN Recs[l] = <<"P", o[2]>> ELSE MatchRecord(Recs[l], o[2])

\* The returned state: every field, relative to the scale of the field
Tol == F(Case.tol)
MatchState(o, x, par) ==
  LET s == x.a.s
      speed == FMax(F1, par.planet.rate \otimes Norm(s.position))
      sc(f, atol) == FNear(o[f], s[f], Tol, (Tol \otimes atol) \oplus Spread(s[f], x.b.s[f]))
      ve(f, atol) == LET n == FMax(atol, Norm(s[f])) d == VSpread(s[f], x.b.s[f]) IN
                     \A i \in 1..3 : FNear(o[f][i], s[f][i], F0, (Tol \otimes n) \oplus d)
  IN [time |-> sc("time", F1), time_since_event |-> sc("time_since_event", FMax(F1, FAbs(s.time))),
      position |-> ve("position", F1), position_planet |-> ve("position_planet", F1),
      altitude |-> sc("altitude", Norm(s.position)),
      altitude_geopotential |-> sc("altitude_geopotential", Norm(s.position)),
      velocity |-> ve("velocity", speed), velocity_planet |-> ve("velocity_planet", speed),
      velocity_atmosphere |-> ve("velocity_atmosphere", speed),
      mass |-> sc("mass", F1), propellant_mass |-> sc("propellant_mass", FAbs(s.mass)),
      gravity_acceleration |-> ve("gravity_acceleration", F("1e-3")),
      temperature |-> sc("temperature", F("1e3")), euler_angles |-> ve("euler_angles", F1)]
Bad(r) == {f \in DOMAIN r : ~r[f]}

Report(what) == PrintT(<<"ACCEPT", Case.id, what, l - 1>>)

Init == c \in 1..Len(Cases) /\ l = 1 /\ S!StartIn([a |-> FreshWorld(c), b |-> FreshWorld(c)])

\* A step that prints consumes the next record and must show it
Printing(A) == A /\ l <= Len(Recs) /\ Match(out') /\ l' = l + 1
Silent(A) == A /\ UNCHANGED l
Step == /\ pc = "step" /\ UNCHANGED k
        /\ LET a == Attempt2(w, h) IN
           \* a step to nowhere in particular: what becomes of it is unknown, too
           IF Undetermined(a.w) THEN pc' = "wild" /\ UNCHANGED <<w, h, discards, out, l>>
           ELSE
           \/ Printing(S!EndPhase(a))
           \/ Printing(S!Discard(a))
           \/ Printing(S!Accept(a))
           \/ Silent(S!AbortStep(a))
           \/ Silent(S!GiveUp(a))
Next == /\ UNCHANGED c
        /\ \/ Printing(S!NextPhase)
           \/ Silent(S!EvaluateStart)
           \/ Step
           \/ Silent(S!Finish)

\* The end of a run: everything was consumed and the outcome is the same.  A
\* run that was cut off ("budget") need only agree as far as it went.
AtEnd == l = Len(Recs) + 1
\* (it may have been cut off between two phases, but not after the last)
CutOff == Case.end = "budget" /\ AtEnd /\ (pc \in {"eval", "step"} \/ (pc = "phase" /\ k < WNPhases(w.a)))
Accepted ==
  \/ pc = "done" /\ AtEnd /\ Case.end = "ok" /\ LET b == Bad(MatchState(Case.state, w, w.a.par)) IN
       IF b = {} THEN TRUE ELSE PrintT(<<"STATE", Case.id, b, [f \in b |-> <<w.a.s[f], Case.state[f]>>]>>) /\ FALSE
  \/ pc = "abort" /\ AtEnd /\ Case.end = "panic"
  \/ CutOff
Inv == IF pc # "abort" /\ Wild THEN Report("wild")
       ELSE (pc \in {"done", "abort"} \/ CutOff) => IF Accepted THEN Report(pc) ELSE TRUE
Constraint == ~CutOff /\ ~Wild
Progress == PrintT(<<"AT", Case.id, l, pc, k, discards, h, w.a.s.time>>)
=============================================================================
