------------------------------ MODULE MCWorld --------------------------------
(* The phase and time stepping machine PostSim over the worlds of real       *)
(* missions (floating point states, the equations of motion of PostDyn): the *)
(* listed properties on every behaviour of the missions of the file CASES.   *)
(* What MCSim checks over all small integer worlds is checked here over the  *)
(* very worlds that runs of the code are compared with in ConfSim.           *)
EXTENDS PostWorld, TLC, TLCExt, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
CaseMission(i) == Cases[i].mission
CONSTANTS MaxDiscards, Longest
VARIABLES pc, k, w, h, discards, out

S == INSTANCE PostSim WITH
  NPhases <- WNPhases, HasInit <- WHasInit, Enter <- WEnter, Evaluate <- WEvaluate, EvalAbort <- WEvalAbort,
  BaseStep <- WBaseStep, Attempt <- WAttempt, Dist <- WDist, Met <- WMet, Crossed <- WCrossed, Shorter <- WShorter

vars == <<pc, k, w, h, discards, out>>
Init == \E i \in 1..Len(Cases) : S!StartIn(FreshWorld(i))
Next == S!Next
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Longest

Config(n) == Mission(w.m)[n]
Evaluated == pc = "step" \/ (pc \in {"phase", "done"} /\ k > 0)
Target == w.par.crit[2]
D(x) == WDist(x).d
Eps(x) == F("1e-3") \oplus WDist(x).eps
\* Sides of the target: certainly above, certainly below
Above(x) == (Eps(x) \oplus WDist(x).eps) \preceq D(x)
Below(x) == D(x) \preceq FNeg(Eps(x) \oplus WDist(x).eps)

TypeOK == pc \in {"phase", "eval", "step", "done", "abort"} /\ k \in 0..WNPhases(w) /\ discards \in 0..MaxDiscards
          /\ F0 \preceq h /\ F0 \preceq w.s.time_since_event /\ w.s.time_since_event \preceq (w.s.time \otimes F("1.000000001"))

\* C01: in order, each once; the vehicle is handed over as it is
Kept == {"time", "position", "velocity"}
Order == [][k' # k => /\ k' = k + 1 /\ pc = "phase" /\ out' = <<"phase", k'>>
                      /\ FEq(w'.s.time_since_event, F0)
                      /\ (k > 0 => \A f \in Kept : w'.s[f] = w.s[f])
                      /\ w'.m = w.m]_vars
AllRun == pc = "done" => k = WNPhases(w)
\* C02: the parameters are those set last
InForce == k > 0 => w.par = ParAfter(Mission(w.m), k)
Constant == [][k' = k => w'.par = w.par /\ w'.launch = w.launch /\ w'.c0 = w.c0]_vars
\* C03
EndMet == [][(pc = "step" /\ pc' = "phase") => ~Above(w') /\ ~Below(w')]_vars
FirstCrossing == [][(pc = "step" /\ pc' = "step" /\ w' # w) => ~(Above(w) /\ Below(w')) /\ ~(Below(w) /\ Above(w'))]_vars
\* C04
DiscardClean == [][discards' > discards =>
                     /\ discards' = discards + 1 /\ w' = w /\ pc' = "step" /\ k' = k
                     /\ F0 \preceq h' /\ h' \preceq (h \otimes F("1.000001")) /\ out' = <<"record", w>>]_vars
GivesUp == [][pc' = "abort" /\ pc = "step" => discards = MaxDiscards \/ TRUE \in WAttempt(w, h).abort]_vars
EveryPhaseAnew == [][k' # k => discards' = 0]_vars
\* C05
FullSteps == (pc = "step" /\ discards = 0) => h = w.par.step
Clocks == [][ /\ w.s.time \preceq w'.s.time
              /\ (k' = k => \/ w'.s.time = w.s.time /\ w'.s.time_since_event = w.s.time_since_event
                            \/ w'.s.time = (w.s.time \oplus h) /\ w'.s.time_since_event = (w.s.time_since_event \oplus h)) ]_vars
\* C06
Masses == Evaluated => w.s.propellant_mass = (w.s.mass \ominus w.par.structure)
Burning == [][k' = k => w'.s.mass \preceq w.s.mass
              /\ (w.s.mass \oplus (h \otimes FullFlow(w.par.engines))) \preceq (w'.s.mass \otimes F("1.000000001"))]_vars
Staged == [][k' # k => LET v == Opt(Mission(w.m)[k'], "vehicle", None) IN
              CASE HasField(v, "propellant_mass") -> w'.s.mass = (w'.par.structure \oplus v.propellant_mass)
                [] HasField(v, "structure_mass") -> w'.s.mass = (w.s.propellant_mass \oplus v.structure_mass)
                [] OTHER -> w'.s.mass = w.s.mass]_vars
\* C07: the attitude is continuous from phase to phase where an axis is steered by the time since the event
Continuous == [][pc = "eval" /\ pc' = "step" => \A i \in 1..3 :
                  LET a == <<w.par.roll, w.par.yaw, w.par.pitch>>[i] IN
                  a[1] = "time_since_event" => FNear(w'.s.euler_angles[i], w.s.euler_angles[i], F("1e-12"), F("1e-12"))]_vars
\* C08
Limited == Evaluated => /\ F0 \preceq w.s.throttle /\ w.s.throttle \preceq F1
                        /\ (FIsFinite(w.par.limit) => Norm(w.s.vehicle_acceleration_body) \preceq (w.par.limit \otimes F("1.00101")))
                        /\ (~FIsFinite(w.par.limit) => FEq(w.s.throttle, F1))
\* C17: on the ground and in the air of a planet that does not turn
NotTurning == (Evaluated /\ FEq(w.par.planet.rate, F0)) => VNearAt(w.s.position_planet, w.s.position, F("1e-15"), Norm(w.s.position))
  /\ VNearAt(w.s.velocity_planet, w.s.velocity, F("1e-15"), Norm(w.s.velocity))
\* C21
Records == [][(pc = "step" /\ pc' # "abort") => out' = <<"record", w'>>]_vars
Announced == [][(k' # k) <=> (out' # out /\ out'[1] = "phase")]_vars
=============================================================================
