------------------------------- MODULE GenOps -------------------------------
(* All histories of loads and runs up to a length, which end with a run.     *)
EXTENDS PostPure, TLC, Json
CONSTANT Length
Short == Len(hist) < Length
Out == IF hist # <<>> /\ hist[Len(hist)][1] = "run" /\ Len(hist) = Length
       THEN PrintT("@" \o ToJson(hist)) ELSE TRUE
=============================================================================
