------------------------------ MODULE ConfPair -------------------------------
(* Two runs of the real code compared.  Case: [id, kind, a, b], a and b:     *)
(* [end, recs, state (if the run completed)].                                *)
(*   "same":   the same outcome, records and final state, bit for bit        *)
(*   "near":   the same, up to rounding errors                               *)
(*   "prefix": a (completed) is how b, of which it is the beginning, begins  *)
EXTENDS Vec, Sequences, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done

Same(a, b) == a.end = b.end /\ a.recs = b.recs /\ (a.end = "ok" => a.state = b.state)

NearF(x, y, scale) == FNear(x, y, F("1e-7"), F("1e-5") \otimes FMin(F1, scale))
IsScalar(x) == Len(x) = 2
NearField(x, y) == IF IsScalar(x) THEN FNear(x, y, F("1e-7"), F("1e-6"))
                   ELSE \A i \in 1..3 : FNear(x[i], y[i], F("1e-7"), F("1e-7") \otimes FMax(F("10"), FMax(Norm(x), Norm(y))))
\* Printed numbers may be rounded either way
NearNum(x, y) == FNear(x, y, F("1e-7"), F("1.000001"))
NearRec(r, s) ==
  /\ r[1] = s[1]
  /\ IF r[1] = "P" THEN r = s
     ELSE /\ NearNum(r[2], s[2]) /\ NearNum(r[5], s[5]) /\ NearNum(r[6], s[6])
          /\ \A i \in 1..3 : NearNum(r[3][i], s[3][i]) /\ NearNum(r[4][i], s[4][i])
Near(a, b) ==
  /\ a.end = b.end /\ Len(a.recs) = Len(b.recs)
  /\ \A i \in 1..Len(a.recs) : NearRec(a.recs[i], b.recs[i])
  /\ a.end = "ok" => \A f \in DOMAIN a.state : NearField(a.state[f], b.state[f])

IsPrefix(a, b) == Len(a.recs) <= Len(b.recs) /\ \A i \in 1..Len(a.recs) : a.recs[i] = b.recs[i]
\* An aborted beginning aborts the whole
Begins(a, b) == IsPrefix(a, b) /\ (a.end = "panic" => b.end = "panic" /\ Len(a.recs) = Len(b.recs))

Holds(x) == CASE x.kind = "same" -> Same(x.a, x.b)
              [] x.kind = "near" -> Near(x.a, x.b)
              [] x.kind = "prefix" -> Begins(x.a, x.b)
Init == c \in 1..Len(Cases) /\ done = FALSE
Check == IF Holds(Cases[c]) THEN TRUE ELSE PrintT(<<"FAIL", Cases[c].id, {Cases[c].kind}>>)
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Check
=============================================================================
