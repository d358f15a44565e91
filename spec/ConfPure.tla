------------------------------ MODULE ConfPure ------------------------------
(* Trace validation against PostPure: the process did what the machine does, *)
(* and every run of a mission gave what the mission gives in a process of    *)
(* its own.  Case: [id, ops: <<<<op, slot, mission, done>>>>, got: <<result  *)
(* number, or 0 for a load>>, alone: <<result of each mission alone>>].      *)
(* For the command line tool every run is one of a new process.              *)
EXTENDS PostPure, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 0 /\ PInit
Next == /\ UNCHANGED c /\ l < Len(Case.ops) /\ l' = l + 1
        /\ LET o == Case.ops[l + 1] IN
           \/ o[1] = "load" /\ Load(o[2], o[3]) /\ hist'[Len(hist')] = o
           \/ o[1] = "start" /\ Start(o[3])
           \/ o[1] = "run" /\ Run(o[2]) /\ hist'[Len(hist')] = o /\ Case.got[l + 1] = Case.alone[o[3]]
Inv == l = Len(Case.ops) => PrintT(<<"ACCEPT", Case.id>>)
=============================================================================
