----------------------------- MODULE MCAttitude ------------------------------
(* Laws of the attitude and of the composition of forces, on a grid of       *)
(* launch sites, azimuths and angles (multiples of Grid degrees).            *)
EXTENDS PostSteering, TLC, Integers
CONSTANT Grid
VARIABLES la, lo, az, ro, ya, pi, set
Angles == {x \in -180..180 : x % Grid = 0}
Init == /\ la \in {x \in -90..90 : x % Grid = 0} /\ lo \in {0, 100, 180} /\ az \in {0, 45, 180, 270}
        /\ ro = 0 /\ ya = 0 /\ pi = 0 /\ set = FALSE
\* The angles are chosen in a step, by all workers
Next == /\ ~set /\ set' = TRUE /\ UNCHANGED <<la, lo, az>>
        /\ ro' \in Angles /\ ya' \in Angles /\ pi' \in Angles
A(x) == Rad(FInt(x))
Launch == <<A(la), A(lo), A(az)>>
M == Attitude(Launch, <<A(ro), A(ya), A(pi)>>)
Id == <<<<F1, F0, F0>>, <<F0, F1, F0>>, <<F0, F0, F1>>>>
MNear(a, b) == \A i \in 1..3 : VNearAt(a[i], b[i], F("1e-14"), F1)
\* A pure rotation: orthogonal, and right-handed
Orthogonal == MNear(MMul(M, MTrans(M)), Id)
RightHanded == VNearAt(Cross(M[1], M[2]), M[3], F("1e-14"), F1)
\* At zero angles the body stands up at the launch site, its third axis points
\* in the direction of the azimuth (north, east, ...), for whatever azimuth
Up == <<FCos(A(la)) \otimes FCos(A(lo)), FCos(A(la)) \otimes FSin(A(lo)), FSin(A(la))>>
Stands == LET B == Attitude(Launch, VZero) IN
  /\ VNearAt(B[1], Up, F("1e-14"), F1)
  /\ FNear(Dot(B[3], Up), F0, F0, F("1e-14"))
  /\ az = 0 => F("-1e-14") \preceq B[3][3] /\ VNearAt(B[2], <<FNeg(FSin(A(lo))), FCos(A(lo)), F0>>, F("1e-14"), F1)
\* Roll turns about the longitudinal axis as it is before: it does not move it
\* if there is neither yaw nor pitch; pitching over tilts towards the azimuth
\* The rotations one after the other: yaw about the third axis after roll, pitch
\* about the second axis after yaw
Turned(r, y, p) == Attitude(Launch, <<A(r), A(y), A(p)>>)
OrderLaw == /\ VNearAt(Turned(ro, ya, pi)[2], Turned(ro, ya, 0)[2], F("1e-14"), F1)
            /\ VNearAt(Turned(ro, ya, 0)[3], Turned(ro, 0, 0)[3], F("1e-14"), F1)
            /\ VNearAt(Turned(ro, 0, 0)[1], Turned(0, 0, 0)[1], F("1e-14"), F1)
\* Cubic polynomials are what Horner's scheme says
PolyLaw == LET c == <<FInt(lo), FInt(ro), FInt(ya)>> y == FInt(pi) \oslash F("50") IN
  FNear(Poly(FInt(la), c, y), FInt(la) \oplus (y \otimes (c[1] \oplus (y \otimes (c[2] \oplus (y \otimes c[3]))))),
        F("1e-14"), F("1e-14") \otimes PolyScale(FInt(la), c, y))
RollLaw == VNearAt(Attitude(Launch, <<A(ro), F0, F0>>)[1], Up, F("1e-14"), F1)
PitchLaw == LET B == Attitude(Launch, VZero) C == Attitude(Launch, <<F0, F0, A(pi)>>) IN
  VNearAt(C[1], VSub(VScale(FCos(A(pi)), B[1]), VScale(FSin(A(pi)), B[3])), F("1e-14"), F1)
YawLaw == LET B == Attitude(Launch, VZero) C == Attitude(Launch, <<F0, A(ya), F0>>) IN
  VNearAt(C[1], VAdd(VScale(FCos(A(ya)), B[1]), VScale(FSin(A(ya)), B[2])), F("1e-14"), F1)
=============================================================================
