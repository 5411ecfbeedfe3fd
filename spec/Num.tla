-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers for trace validation.  TLC has 32 bit integers only, so a  *)
(* number is the pair <<hi, lo>> of the two halves of an IEEE 754 double;  *)
(* the operators below are evaluated by Num.java (a TLC module override).  *)
(* A comparison with NaN is FALSE, so that a property which bounds a       *)
(* quantity rejects NaN.                                                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Undef == <<0, 0>>
N(str)       == Undef          \* literal, e.g. N("3e-4")
NI(i)        == Undef          \* from an integer
NTrunc(a)    == Undef          \* to an integer (toward zero)
NStr(a)      == Undef          \* decimal representation, for messages
NAdd(a, b)   == Undef
NSub(a, b)   == Undef
NMul(a, b)   == Undef
NDiv(a, b)   == Undef
NNeg(a)      == Undef
NAbs(a)      == Undef
NSqrt(a)     == Undef
NFloor(a)    == Undef
NCeil(a)     == Undef
NSin(a)      == Undef
NCos(a)      == Undef
NAsin(a)     == Undef
NAcos(a)     == Undef
NAtan2(y, x) == Undef
NHypot(y, x) == Undef
NLe(a, b)    == Undef
NLt(a, b)    == Undef
NEq(a, b)    == Undef
NFinite(a)   == Undef
NMax(a, b)   == Undef
NMin(a, b)   == Undef
NAngDiff(a, b) == Undef        \* a - b modulo 2 pi, in [-pi, pi]
NMod2Pi(a)   == Undef          \* a modulo 2 pi, in [0, 2 pi)
NSum(s)      == Undef          \* sum of a sequence of numbers
\* integrals over u = 0..L of cos / sin (t + a u + b u^2), and with weight u^p
NIntCos(t, a, b, L)    == Undef
NIntSin(t, a, b, L)    == Undef
NMomCos(p, t, a, b, L) == Undef
NMomSin(p, t, a, b, L) == Undef
NMinEig(m)   == Undef          \* smallest eigenvalue of a symmetric 3 x 3 matrix

Zero == N("0")
One  == N("1")
Two  == N("2")
Half == N("0.5")
Pi   == N("3.141592653589793")
TwoPi == N("6.283185307179586")
HalfPi == N("1.5707963267948966")
NSq(a)      == NMul(a, a)
NAdd3(a, b, c) == NAdd(NAdd(a, b), c)
NAdd4(a, b, c, e) == NAdd(NAdd(a, b), NAdd(c, e))
NMul3(a, b, c) == NMul(NMul(a, b), c)
NNear(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
NAngNear(a, b, tol) == NLe(NAbs(NAngDiff(a, b)), tol)
NSgn(a)     == IF NLt(a, Zero) THEN -1 ELSE 1
=============================================================================
