-------------------------------- MODULE MCSim --------------------------------
(* Exhaustive check of the phase and time stepping machine PostSim over all  *)
(* small integer worlds: the end criterion variable runs along an arbitrary  *)
(* path, one per phase, of which the machine only sees the values at the     *)
(* times it steps to.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxDiscards,
  Phases,     \* greatest number of phases
  Horizon,    \* length of a path
  Values,     \* values of the criterion variable relative to the target
  Steps,      \* step sizes
  Danger      \* the value at which the evaluation of the state aborts

ValuesA == {-2, 0, 1, 3, 9}
ValuesB == {-4, 0, 2, 9}
ValuesD == {-4, 1, 2, 9}
ValuesC == {-6, -3, -1, 0, 2, 5}
Tol == 2      \* the criterion is met if |distance| < Tol
Paths == [0..Horizon -> Values]
\* A world: paths and step sizes of the phases (constant), and the vehicle
Worlds == UNION {[1..n -> [path : Paths, step : Steps]] : n \in 0..Phases}

VARIABLES pc, k, w, h, discards, out

At(p, t) == IF t > Horizon THEN p[Horizon] ELSE p[t]
Fresh(m, i) == [m |-> m, init |-> i, ph |-> 0, time |-> 0, tse |-> 0]
Dist(x) == At(x.m[x.ph].path, x.tse)
Near(d) == -Tol < d /\ d < Tol
Abs(x) == IF x < 0 THEN -x ELSE x
\* Linear interpolation, in whole numbers: rounded down, but not to nothing
Shorter(old, new, s) ==
  IF Near(old) THEN 0
  ELSE LET q == (Abs(old) * s) \div (Abs(old) + Abs(new)) IN IF q = 0 THEN 1 ELSE q

S == INSTANCE PostSim WITH
  NPhases <- LAMBDA x : Len(x.m), HasInit <- LAMBDA x : x.init,
  Enter <- LAMBDA x, n : [x EXCEPT !.ph = n, !.tse = 0],
  Evaluate <- LAMBDA x : x, EvalAbort <- LAMBDA x : {Dist(x) = Danger},
  BaseStep <- LAMBDA x : IF x.ph = 0 THEN 1 ELSE x.m[x.ph].step,
  Attempt <- LAMBDA x, s : LET y == [x EXCEPT !.time = @ + s, !.tse = @ + s] IN [w |-> y, abort |-> {Dist(y) = Danger}],
  Dist <- Dist, Met <- LAMBDA d : {Near(d)},
  Crossed <- LAMBDA a, b : {IF b < a THEN a > -Tol /\ b < 0 ELSE a < Tol /\ b > 0},
  Shorter <- Shorter

vars == <<pc, k, w, h, discards, out>>
\* A first phase without initialisation is tried with the simplest paths
Init == \E m \in Worlds : \E i \in BOOLEAN : (i \/ \A n \in 1..Len(m) : \A t \in 0..Horizon : m[n].path[t] = m[n].path[0]) /\ S!StartIn(Fresh(m, i))
Next == S!Next
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The paths are known up to the horizon; what happens later is not explored
InTime == w.tse <= Horizon + 1

(* ---- the properties --------------------------------------------------------- *)
\* Sides of the target; inside the tolerance is neither
Side(d) == IF d >= Tol THEN 1 ELSE IF d <= -Tol THEN -1 ELSE 0

TypeOK == /\ pc \in {"phase", "eval", "step", "done", "abort"}
          /\ k \in 0..Len(w.m) /\ (w.ph = k \/ ~w.init)
          /\ h >= 0
          /\ discards \in 0..MaxDiscards /\ w.tse <= w.time

\* C01: phases in order, each once, all before the end; the hand-over changes
\* neither time nor anything else but the time since the event, which restarts
Order == [][ /\ k' # k => /\ k' = k + 1 /\ pc = "phase"
                          /\ out' = <<"phase", k'>>
                          /\ w' = IF w.init THEN [w EXCEPT !.ph = k', !.tse = 0] ELSE w
             /\ w'.m = w.m ]_vars
AllRun == pc = "done" => k = Len(w.m)
\* C03: a phase completes only with its criterion met ...
EndMet == [][(pc = "step" /\ pc' = "phase") => Side(Dist(w')) = 0]_vars
\* ... and goes on only as long as the variable stays on one side of the target
FirstCrossing == [][(pc = "step" /\ pc' = "step" /\ w' # w) =>
                      Side(Dist(w')) # 0 /\ Side(Dist(w)) \in {0, Side(Dist(w'))}]_vars
\* in particular it never leaves the tolerance once a step has ended in it,
\* and moving about on the same side neither ends nor shortens anything
SameSide == [][(pc = "step" /\ out' # out /\ h' # h) =>
                 LET a == [w EXCEPT !.tse = @ + h] IN Side(Dist(w)) # Side(Dist(a)) \/ Side(Dist(w)) = 0]_vars
\* C04: discarded without a trace, retried shorter, bounded
DiscardClean == [][discards' > discards =>
                     /\ discards' = discards + 1 /\ w' = w /\ pc' = "step" /\ k' = k
                     /\ h' >= 0 /\ (h' < h \/ h = 1) /\ out' = <<"record", w>>]_vars
GivesUp == [][pc' = "abort" => \/ (pc = "step" /\ (discards = MaxDiscards \/ Dist([w EXCEPT !.tse = @ + h]) = Danger))
                                \/ (pc = "eval" /\ Dist(w) = Danger)
                                \/ (pc = "phase" /\ k = 0 /\ ~w.init)]_vars
\* C08: nothing goes on from a state whose evaluation aborts, in whichever phase
NothingAfter == pc = "step" => Dist(w) # Danger
NoRecordOf == out[1] = "record" => Dist(out[2]) # Danger
\* C01: nothing is flown without an initialisation
Initialised == pc \in {"eval", "step"} => w.init
EveryPhaseAnew == [][k' # k => discards' = 0]_vars
\* C05: the configured step as long as nothing was overshot; both clocks together
FullSteps == (pc = "step" /\ discards = 0) => h = w.m[k].step
Clocks == [][ /\ w'.time >= w.time
              /\ (k' = k => w'.time - w.time = w'.tse - w.tse /\ w'.time - w.time \in {0, h}) ]_vars
\* C21: one record per attempt, showing the state after it
Records == [][(pc = "step" /\ pc' # "abort") => out' = <<"record", w'>>]_vars
Announced == [][(k' # k) <=> (out' # out /\ out'[1] = "phase")]_vars
\* Nothing loops for ever: every behaviour ends or reaches the horizon
Ends == <>(pc \in {"done", "abort"} \/ w.tse > Horizon)
=============================================================================
