-------------------------------- MODULE Flt --------------------------------
(* IEEE 754 binary64 numbers as values of the specification.                 *)
(*                                                                           *)
(* TLC's integers have 32 bits and it has no reals, but the quantities of    *)
(* the simulation are floating point numbers.  A float is written as the     *)
(* pair <<hi, lo>> of the two signed 32-bit halves of its bit pattern, and   *)
(* the operators below have the meaning the IEEE 754 standard (for + - * /   *)
(* sqrt and comparisons) and java.lang.Math (for elementary functions, at    *)
(* most one unit in the last place off) give them.  TLC takes their values   *)
(* from java/Flt.java; the bodies here are never evaluated.                  *)
Undefined == CHOOSE x \in {} : TRUE

FAdd(x, y) == Undefined
FSub(x, y) == Undefined
FMul(x, y) == Undefined
FDiv(x, y) == Undefined
FNeg(x) == Undefined
FAbs(x) == Undefined
FSqrt(x) == Undefined
FSin(x) == Undefined
FCos(x) == Undefined
FTan(x) == Undefined
FAsin(x) == Undefined
FAcos(x) == Undefined
FAtan(x) == Undefined
FAtan2(y, x) == Undefined
FExp(x) == Undefined
FPow(x, y) == Undefined
FMax(x, y) == Undefined
FMin(x, y) == Undefined
FLt(x, y) == Undefined
FLe(x, y) == Undefined
FEq(x, y) == Undefined
\* x rounded to a whole number (ties to even)
FRound(x) == Undefined
FIsNaN(x) == Undefined
FIsFinite(x) == Undefined
\* The float with the value of the integer n
FInt(n) == Undefined
\* The float closest to the decimal literal s
F(s) == Undefined
FStr(x) == Undefined
\* |x - y| <= rtol * max(|x|, |y|) + atol, or equal (infinities), or both NaN
FNear(x, y, rtol, atol) == Undefined
\* x rounded to a whole number (ties to even), as text
FRoundStr(x) == Undefined

x \oplus y == FAdd(x, y)
x \ominus y == FSub(x, y)
x \otimes y == FMul(x, y)
x \oslash y == FDiv(x, y)
x \prec y == FLt(x, y)
x \preceq y == FLe(x, y)
=============================================================================
