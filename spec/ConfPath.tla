------------------------------ MODULE ConfPath -------------------------------
(* Trace validation of the time stepping alone: missions in which the end    *)
(* criterion variable runs along a prescribed piecewise linear path (a side  *)
(* force whose coefficient is a table of the time since the event, on a      *)
(* vehicle that stays where it is).  The machine is PostSim, the same as in  *)
(* MCSim; only the time is compared, at which each record was printed.       *)
(* Case: [id, phases: <<[step, target, knots, values]>>, end, times:         *)
(* <<"P", n>> or <<"R", time>>, last: time and time since event returned,     *)
(* unit: unit of time, scale: magnitude of the values].                       *)
EXTENDS PostTables, TLC, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT MaxDiscards
VARIABLES pc, k, w, h, discards, out, c, l

Case == Cases[c]
Phase(x) == Cases[x.m].phases[x.ph]
Fresh(m) == [m |-> m, ph |-> 0, time |-> F0, tse |-> F0]

Tolerance == F("1e-3")
\* (scale: the magnitude of the values, whose rounding errors count)
Eps == F("1e-9") \oplus (F("1e-14") \otimes Case.scale)
Dist(x) == Look1(Phase(x).knots, x.tse, Phase(x).values) \ominus Phase(x).target
Less(x, y) == IF (x \oplus Eps) \prec y THEN {TRUE} ELSE IF x \prec (y \oplus Eps) THEN BOOLEAN ELSE {FALSE}
AndSet(A, B) == {a /\ b : a \in A, b \in B}
Crossed(old, new) ==
  UNION {IF f THEN AndSet(Less(FNeg(Tolerance), old), Less(new, F0))
         ELSE AndSet(Less(old, Tolerance), Less(F0, new)) : f \in Less(new, old)}

TimeEps == Case.unit \otimes (F("1e-12") \otimes (F1 \oplus Case.scale))

Attempt(x, s) == [w |-> [x EXCEPT !.time = @ \oplus s, !.tse = @ \oplus s], abort |-> {FALSE}]

S == INSTANCE PostSim WITH
  NPhases <- LAMBDA x : Len(Cases[x.m].phases), HasInit <- LAMBDA x : TRUE,
  Enter <- LAMBDA x, n : [x EXCEPT !.ph = n, !.tse = F0],
  Evaluate <- LAMBDA x : x, EvalAbort <- LAMBDA x : {FALSE},
  BaseStep <- LAMBDA x : IF x.ph = 0 THEN F1 ELSE Phase(x).step,
  Attempt <- Attempt,
  Dist <- Dist, Met <- LAMBDA d : Less(FAbs(d), Tolerance), Crossed <- Crossed,
  Shorter <- LAMBDA a, b, s : FMax((FNeg(a) \otimes s) \oslash (b \ominus a), F0)

\* Times are printed as whole numbers; the step sizes are large
Shows(r, x) == FNear(r, x, F("1e-9"), F("0.500001") \oplus TimeEps)
Match(o) == IF o[1] = "phase" THEN Case.times[l] = <<"P", o[2]>>
            ELSE Case.times[l][1] = "R" /\ Shows(Case.times[l][2], o[2].time)
AtEnd == l = Len(Case.times) + 1

Init == c \in 1..Len(Cases) /\ l = 1 /\ S!StartIn(Fresh(c))
Printing(A) == A /\ l <= Len(Case.times) /\ Match(out') /\ l' = l + 1
Silent(A) == A /\ UNCHANGED l
Step == /\ pc = "step" /\ UNCHANGED k
        /\ LET a == Attempt(w, h) IN
           \/ Printing(S!EndPhase(a)) \/ Printing(S!Discard(a)) \/ Printing(S!Accept(a))
           \/ Silent(S!AbortStep(a)) \/ Silent(S!GiveUp(a))
Next == UNCHANGED c /\ (Printing(S!NextPhase) \/ Silent(S!EvaluateStart) \/ Step \/ Silent(S!Finish))

\* (it may have been cut off between two phases, but not after the last)
CutOff == Case.end = "budget" /\ AtEnd /\ (pc \in {"eval", "step"} \/ (pc = "phase" /\ k < Len(Case.phases)))
Accepted ==
  \/ pc = "done" /\ AtEnd /\ Case.end = "ok"
     /\ FNear(Case.last[1], w.time, F("1e-9"), TimeEps)
     /\ FNear(Case.last[2], w.tse, F("1e-9"), TimeEps)
  \/ pc = "abort" /\ AtEnd /\ Case.end = "panic"
  \/ CutOff
Inv == (pc \in {"done", "abort"} \/ CutOff) =>
         IF Accepted THEN PrintT(<<"ACCEPT", Case.id, pc, discards>>) ELSE TRUE
Constraint == ~CutOff
=============================================================================
