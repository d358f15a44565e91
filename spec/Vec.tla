-------------------------------- MODULE Vec --------------------------------
(* Three-dimensional vectors <<x, y, z>> of floats and 3x3 matrices (tuples  *)
(* of rows).                                                                 *)
EXTENDS Flt, Naturals

F0 == F("0")
F1 == F("1")
F2 == F("2")
FHalf == F("0.5")
FPi == F("3.141592653589793")
FInf == F("1") \oslash F("0")
Deg(x) == x \otimes (F("180") \oslash FPi)     \* rad -> deg
Rad(x) == x \otimes (FPi \oslash F("180"))     \* deg -> rad
Sq(x) == x \otimes x
Cube(x) == x \otimes x \otimes x

VZero == <<F0, F0, F0>>
VAdd(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
VSub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
VScale(s, a) == <<s \otimes a[1], s \otimes a[2], s \otimes a[3]>>
VDiv(a, s) == <<a[1] \oslash s, a[2] \oslash s, a[3] \oslash s>>
Dot(a, b) == ((a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])) \oplus (a[3] \otimes b[3])
Norm(a) == FSqrt(Dot(a, a))
Cross(a, b) == <<(a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                 (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                 (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])>>

MVec(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
MTrans(m) == <<<<m[1][1], m[2][1], m[3][1]>>,
               <<m[1][2], m[2][2], m[3][2]>>,
               <<m[1][3], m[2][3], m[3][3]>>>>
MMul(a, b) == LET t == MTrans(b) IN
              <<<<Dot(a[1], t[1]), Dot(a[1], t[2]), Dot(a[1], t[3])>>,
                <<Dot(a[2], t[1]), Dot(a[2], t[2]), Dot(a[2], t[3])>>,
                <<Dot(a[3], t[1]), Dot(a[3], t[2]), Dot(a[3], t[3])>>>>

\* Elementary rotations of the coordinate axes by the angle x
RotX(x) == LET c == FCos(x) s == FSin(x) IN <<<<F1, F0, F0>>, <<F0, c, s>>, <<F0, FNeg(s), c>>>>
RotY(x) == LET c == FCos(x) s == FSin(x) IN <<<<c, F0, FNeg(s)>>, <<F0, F1, F0>>, <<s, F0, c>>>>
RotZ(x) == LET c == FCos(x) s == FSin(x) IN <<<<c, s, F0>>, <<FNeg(s), c, F0>>, <<F0, F0, F1>>>>

\* Comparison with a tolerance relative to a scale (vectors: the same for all components)
FNearAt(x, y, tol, scale) == FNear(x, y, F0, tol \otimes FAbs(scale))
VNearAt(a, b, tol, scale) == \A i \in 1..3 : FNearAt(a[i], b[i], tol, scale)
VIsFinite(a) == \A i \in 1..3 : FIsFinite(a[i])
VStr(a) == <<FStr(a[1]), FStr(a[2]), FStr(a[3])>>
=============================================================================
