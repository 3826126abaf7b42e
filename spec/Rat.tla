-------------------------------- MODULE Rat --------------------------------
(* Exact numbers.                                                          *)
(*                                                                         *)
(* A number is a string: an integer "-3", a fraction "7/4" in lowest terms,*)
(* or one of the IEEE specials "nan", "inf", "-inf".  The scalar operators *)
(* below have no TLA+ definition: they are evaluated by the Java class     *)
(* RatOverrides with BigInteger.  RSqrt, RSin, RCos, RLn, RExp, RPi, RFresnelS/C *)
(* and RRnd are correct to more than 300 bits; everything else is exact.   *)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE r \in {} : TRUE
RSub(a, b) == CHOOSE r \in {} : TRUE
RMul(a, b) == CHOOSE r \in {} : TRUE
RDiv(a, b) == CHOOSE r \in {} : TRUE      \* x/0 = nan or an infinity
RNeg(a)    == CHOOSE r \in {} : TRUE
RAbs(a)    == CHOOSE r \in {} : TRUE
RCmp(a, b) == CHOOSE r \in {} : TRUE      \* -1, 0, 1, or 2 if one is nan
RLt(a, b)  == CHOOSE r \in {} : TRUE
RLe(a, b)  == CHOOSE r \in {} : TRUE
RIsNan(a)  == CHOOSE r \in {} : TRUE
RIsFin(a)  == CHOOSE r \in {} : TRUE
RInt(i)    == CHOOSE r \in {} : TRUE      \* TLA+ integer -> number
RToInt(a)  == CHOOSE r \in {} : TRUE      \* floor, as a TLA+ integer
RFloor(a)  == CHOOSE r \in {} : TRUE
RRoundEven(a) == CHOOSE r \in {} : TRUE   \* nearest integer, ties to even
RRnd(a)    == CHOOSE r \in {} : TRUE      \* 320 significant bits
RSqrt(a)   == CHOOSE r \in {} : TRUE
RSin(a)    == CHOOSE r \in {} : TRUE
RCos(a)    == CHOOSE r \in {} : TRUE
RLn(a)     == CHOOSE r \in {} : TRUE
RExp(a)    == CHOOSE r \in {} : TRUE
RPi        == CHOOSE r \in {} : TRUE
RFresnelS(a) == CHOOSE r \in {} : TRUE
RFresnelC(a) == CHOOSE r \in {} : TRUE
RCast(a, dt) == CHOOSE r \in {} : TRUE    \* the value stored in an array of dtype dt
RSolve(A, B) == CHOOSE r \in {} : TRUE    \* X with A X = B (sequences of rows), A regular
RShow(a)   == CHOOSE r \in {} : TRUE      \* decimal, for messages

Zero == "0"
One  == "1"
Half == "1/2"

RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
REq(a, b) == RCmp(a, b) = 0
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSqr(a) == RMul(a, a)
RIsZero(a) == a = Zero
RClamp01(a) == IF RLe(a, Zero) THEN Zero ELSE IF RLe(One, a) THEN One ELSE a

(* ---- vectors: sequences of numbers ------------------------------------ *)
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN Zero ELSE RAdd(SumTo(v, n - 1), v[n])
VSum(v) == SumTo(v, Len(v))
VDot(u, v) == VSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(k, v) == [i \in 1..Len(v) |-> RMul(k, v[i])]
VRnd(v) == [i \in 1..Len(v) |-> RRnd(v[i])]
VZero(n) == [i \in 1..n |-> Zero]
VNorm2(v) == VDot(v, v)
VNorm(v) == RSqrt(VDot(v, v))
VNeg(v) == VScale("-1", v)
VIsZero(v) == \A i \in 1..Len(v) : v[i] = Zero
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(v, n) == IF n = 0 THEN Zero ELSE RMax(MaxAbsTo(v, n - 1), RAbs(v[n]))
VMaxAbs(v) == MaxAbsTo(v, Len(v))
VFin(v) == \A i \in 1..Len(v) : RIsFin(v[i])

(* ---- comparison of an observed number with the specified one ---------- *)
\* o is within tol of e; a specified nan or infinity must be observed as such
RNear(o, e, tol) == IF RIsFin(e) THEN RIsFin(o) /\ RLe(RAbs(RSub(o, e)), tol) ELSE o = e
VNear(o, e, tol) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : RNear(o[i], e[i], tol)
MNear(o, e, tol) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : VNear(o[i], e[i], tol)
\* numpy.isclose(a, b) with default tolerances: |a - b| <= atol + rtol |b|
RIsClose(a, b) ==
  IF RIsFin(a) /\ RIsFin(b)
    THEN RLe(RAbs(RSub(a, b)), RAdd("1/100000000", RMul("1/100000", RAbs(b))))
    ELSE RCmp(a, b) = 0
=============================================================================
