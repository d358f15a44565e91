----------------------------- MODULE ConfConfig -----------------------------
(* Does the real code load exactly what is a configuration, and simulate     *)
(* only that?  Case: [id, tree, and what was observed].                      *)
(*   loaded:    did the library load it                                      *)
(*   simulated: was anything simulated (a time step reported, or an end      *)
(*              state returned), by the library or by the command line tool  *)
(*   success:   did the command line tool report success                     *)
(*   completes: did the mission complete when run by the library             *)
(* A text that is not JSON has the tree <<"none">>.                          *)
EXTENDS PostConfig, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
CInit == c \in 1..Len(Cases) /\ done = FALSE
Seen(x, f) == HasField(x, f) /\ x[f]
Wrong(x) ==
  LET v == Verdict(x.tree)
      start == v = "yes" /\ Runnable(x.tree)
      empty == start /\ Len(x.tree[2]) = 0
  IN IF v = "any" THEN {} ELSE
     \* a mission that cannot be started may be refused right away
     (IF HasField(x, "loaded") /\ x.loaded # (v = "yes") /\ ~(v = "yes" /\ ~start) /\ ~empty THEN {"loaded"} ELSE {})
     \cup (IF Seen(x, "simulated") /\ (~start \/ empty) THEN {"simulated"} ELSE {})
     \cup (IF HasField(x, "success") /\ ~start /\ x.success THEN {"success"} ELSE {})
     \cup (IF HasField(x, "success") /\ HasField(x, "completes") /\ start /\ ~empty /\ x.success # x.completes
           THEN {"status"} ELSE {})
Check == LET w == Wrong(Cases[c]) IN
         /\ PrintT(<<"VERDICT", Verdict(Cases[c].tree)>>)
         /\ IF w = {} THEN TRUE ELSE PrintT(<<"FAIL", Cases[c].id, w>>)
CNext == ~done /\ done' = TRUE /\ UNCHANGED c /\ Check
=============================================================================
