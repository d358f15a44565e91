------------------------------ MODULE PostPure ------------------------------
(* Processes that load configurations and run them: what running gives       *)
(* depends on nothing but the configuration loaded.  Slots hold simulations; *)
(* a mission that is refused leaves its slot empty.  The history has no part *)
(* in a result, and neither has the world around the process: the time, the  *)
(* other files, the environment variables, the machine.  The world changes   *)
(* whenever it likes, and processes end and start: nothing is left over.     *)
EXTENDS Naturals, Sequences
CONSTANTS Slots, Missions, Refused, Worlds
VARIABLES slot, world, hist
None == 0
Load(s, m) == /\ slot' = [slot EXCEPT ![s] = IF m \in Refused THEN None ELSE m]
              /\ hist' = Append(hist, <<"load", s, m, m \notin Refused>>) /\ UNCHANGED world
Run(s) == /\ slot[s] # None /\ UNCHANGED <<slot, world>>
          /\ hist' = Append(hist, <<"run", s, slot[s], TRUE>>)
\* A new process, in another world perhaps
Start(w) == /\ slot' = [s \in Slots |-> None] /\ world' = w
            /\ hist' = Append(hist, <<"start", 0, w, TRUE>>)
PInit == slot = [s \in Slots |-> None] /\ world \in Worlds /\ hist = <<>>
PNext == \/ \E s \in Slots : Run(s) \/ \E m \in Missions : Load(s, m)
         \/ \E w \in Worlds \ {world} : Start(w)
\* What a run of the mission in a slot gives was decided when it was loaded
LastLoad(n) == LET s == hist[n][2] IN
  CHOOSE j \in 1..(n - 1) : hist[j][1] = "load" /\ hist[j][2] = s
                            /\ \A i \in (j + 1)..(n - 1) : ~(hist[i][1] = "load" /\ hist[i][2] = s)
RunsWhatWasLoaded == \A n \in 1..Len(hist) : hist[n][1] = "run" =>
  /\ hist[LastLoad(n)][3] = hist[n][3]
  /\ \A i \in LastLoad(n)..n : hist[i][1] # "start"
=============================================================================
