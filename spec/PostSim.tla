------------------------------ MODULE PostSim -------------------------------
(* The life of a simulation as a state machine: phases are entered one after *)
(* the other, each is evaluated once and then advanced by attempted time     *)
(* steps, every one of which is accepted, discarded and retried shorter,     *)
(* ends the phase, or aborts the simulation.                                 *)
(*                                                                           *)
(* The module is parametric in what a world (parameters and state of the     *)
(* vehicle) is and how it moves, so that the very same actions are checked   *)
(* exhaustively over small integer worlds (MCSim) and compared with the      *)
(* running code over floating point ones (ConfSim).                          *)
EXTENDS Naturals, Sequences

CONSTANTS
  NPhases(_),       \* number of phases of the mission of a world
  HasInit(_),       \* does the first phase of the mission initialise the vehicle
  Enter(_, _),      \* Enter(w, k): the world at the start of phase k
  Evaluate(_),      \* the world after its state has been evaluated
  EvalAbort(_),     \* set of BOOLEAN: may evaluating the world('s state) abort
  BaseStep(_),      \* configured step size of the current phase
  Attempt(_, _),    \* Attempt(w, h): [w |-> world after a step of h, abort |-> set of BOOLEAN]
  Dist(_),          \* end criterion variable minus target
  Met(_),           \* Met(d): set of BOOLEAN: is the end criterion met
  Crossed(_, _),    \* Crossed(old, new): set of BOOLEAN: was the target overshot
  Shorter(_, _, _), \* Shorter(old, new, h): step size to retry with
  MaxDiscards       \* discarded steps allowed in one phase

VARIABLES
  pc,       \* "phase": between phases, "eval", "step", "done", "abort"
  k,        \* current phase, 0 before the first
  w,        \* the world
  h,        \* size of the next step
  discards, \* steps discarded in this phase
  out       \* what was printed last: <<"none">>, <<"phase", k>> or <<"record", w>>
vars == <<pc, k, w, h, discards, out>>

StartIn(world) ==
  /\ pc = "phase" /\ k = 0 /\ w = world /\ h = BaseStep(world) /\ discards = 0 /\ out = <<"none">>

NextPhase ==
  /\ pc = "phase" /\ k < NPhases(w)
  /\ k' = k + 1
  /\ out' = <<"phase", k + 1>>
  /\ IF k = 0 /\ ~HasInit(w)
     THEN pc' = "abort" /\ UNCHANGED <<w, h, discards>>
     ELSE /\ w' = Enter(w, k + 1)
          /\ h' = BaseStep(w')
          /\ discards' = 0
          /\ pc' = "eval"

EvaluateStart ==
  /\ pc = "eval"
  /\ w' = Evaluate(w)
  /\ \/ FALSE \in EvalAbort(w') /\ pc' = "step"
     \/ TRUE \in EvalAbort(w') /\ pc' = "abort"
  /\ UNCHANGED <<k, h, discards, out>>

\* One attempted time step and what may come of it
AbortStep(a) == TRUE \in a.abort /\ pc' = "abort" /\ UNCHANGED <<w, h, discards, out>>
EndPhase(a) == /\ FALSE \in a.abort /\ TRUE \in Met(Dist(a.w))
               /\ w' = a.w /\ pc' = "phase" /\ out' = <<"record", a.w>> /\ UNCHANGED <<h, discards>>
Overshot(a) == /\ FALSE \in a.abort /\ FALSE \in Met(Dist(a.w)) /\ TRUE \in Crossed(Dist(w), Dist(a.w))
Discard(a) == /\ Overshot(a) /\ discards < MaxDiscards
              /\ h' = Shorter(Dist(w), Dist(a.w), h)
              /\ discards' = discards + 1
              /\ out' = <<"record", w>> /\ UNCHANGED <<pc, w>>
GiveUp(a) == /\ Overshot(a) /\ discards >= MaxDiscards
             /\ pc' = "abort" /\ UNCHANGED <<w, h, discards, out>>
Accept(a) == /\ FALSE \in a.abort /\ FALSE \in Met(Dist(a.w)) /\ FALSE \in Crossed(Dist(w), Dist(a.w))
             /\ w' = a.w /\ out' = <<"record", a.w>> /\ UNCHANGED <<pc, h, discards>>
Step == pc = "step" /\ UNCHANGED k /\
        LET a == Attempt(w, h) IN AbortStep(a) \/ EndPhase(a) \/ Discard(a) \/ GiveUp(a) \/ Accept(a)

Finish == pc = "phase" /\ k = NPhases(w) /\ pc' = "done" /\ UNCHANGED <<k, w, h, discards, out>>

Next == NextPhase \/ EvaluateStart \/ Step \/ Finish
=============================================================================
