------------------------------- MODULE MCPure --------------------------------
(* What PostPure promises of histories with processes that start and worlds   *)
(* that change: what a run gives is a function of the mission alone.          *)
EXTENDS PostPure
CONSTANT Length
Short == Len(hist) < Length
\* Two histories side by side would be the same machine twice; it suffices that
\* what is run was loaded last into that slot, by this process, and accepted.
Fresh == \A s \in Slots : slot[s] # None =>
  \E j \in 1..Len(hist) : /\ hist[j] = <<"load", s, slot[s], TRUE>>
                          /\ \A i \in (j + 1)..Len(hist) : hist[i][1] # "start" /\ ~(hist[i][1] = "load" /\ hist[i][2] = s)
Emptied == \A s \in Slots : (Len(hist) > 0 /\ hist[Len(hist)][1] = "start") => slot[s] = None
NoRefused == \A n \in 1..Len(hist) : /\ (hist[n][1] = "run" => hist[n][3] \notin Refused)
                                     /\ (hist[n][1] = "load" => hist[n][4] = (hist[n][3] \notin Refused))
\* The world one is in is the one of the last start
World == \A n \in 1..Len(hist) : (hist[n][1] = "start" /\ \A i \in (n + 1)..Len(hist) : hist[i][1] # "start") => world = hist[n][3]
\* No step but a load or a start changes what a slot holds
Held == [][slot' # slot => hist'[Len(hist')][1] \in {"load", "start"}]_<<slot, world, hist>>
=============================================================================
