------------------------------ MODULE GenExpand ------------------------------
(* Writes the missions of the file CASES out in full (PostMission!Expand) to *)
(* the file OUT, in the same order.                                          *)
EXTENDS PostMission, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Cases) |-> [mission |-> Expand(Cases[i].mission)]])
\* The expanded mission has the parameters of the original, phase by phase
Laws == \A i \in 1..Len(Cases) : \A k \in 1..Len(Cases[i].mission) :
          LET m == Cases[i].mission IN
          /\ ParAfter(Expand(m), k) = ParAfter(m, k)
          /\ Expand(Expand(m)) = Expand(m)
=============================================================================
