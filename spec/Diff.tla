-------------------------------- MODULE Diff --------------------------------
(* Lengths, finite-difference derivatives, the Frenet frame, curvature and    *)
(* torsion of a curve, exactly, together with a bound of the rounding error   *)
(* that an implementation in floating point may make.                         *)
(*                                                                            *)
(* An approximated vector (or number) is a record [v |-> value, e |-> bound]: *)
(* every component of an admissible observation is within e of v.  The bound  *)
(* "inf" means that floating point decides nothing there.                     *)
EXTENDS Rat, TLC

U64 == "1/562949953421312"        \* 16 units in the last place, float64
U32 == "1/1048576"                \* 16 units, float32
UnitOf(dt) == IF dt = "float32" THEN U32 ELSE U64

\* decisions of the library: a length at most 1e-8 vanishes
Small == "1/100000000"

AV(v, e) == [v |-> v, e |-> e]
Ok(a) == a.e # "inf"
Bad(a) == a.e = "inf"

\* an observed vector / number is admissible
AdmV(o, a) == Bad(a) \/ VNear(o, a.v, a.e)
AdmN(o, a) == Bad(a) \/ RNear(o, a.v, a.e)
AdmM(os, as) == Len(os) = Len(as) /\ \A i \in 1..Len(as) : AdmV(os[i], as[i])
AdmNs(os, as) == Len(os) = Len(as) /\ \A i \in 1..Len(as) : AdmN(os[i], as[i])

(* -------------------------------- lengths -------------------------------- *)
Chord(p, q) == VNorm(VSub(q, p))
Chords(pts) == TLCEval([i \in 1..(IF Len(pts) = 0 THEN 0 ELSE Len(pts) - 1) |-> Chord(pts[i], pts[i + 1])])
ArcLen(pts) == VSum(Chords(pts))
RECURSIVE CumOf(_, _, _)
CumOf(ch, i, s) == IF i > Len(ch) THEN <<>> ELSE <<RAdd(s, ch[i])>> \o CumOf(ch, i + 1, RAdd(s, ch[i]))
CumLengths(pts) == IF pts = <<>> THEN <<>> ELSE <<Zero>> \o CumOf(Chords(pts), 1, Zero)

(* --------------------------- finite differences -------------------------- *)
\* exact rule on a sequence of vectors
FD(f) ==
  LET m == Len(f)
      n == Len(f[1])
  IN IF m = 0 THEN <<>>
     ELSE IF m = 1 THEN <<VZero(n)>>
     ELSE IF m = 2 THEN <<VSub(f[2], f[1]), VSub(f[2], f[1])>>
     ELSE TLCEval([i \in 1..m |->
            IF i = 1 THEN VAdd(VAdd(VScale("-3/2", f[1]), VScale("2", f[2])), VScale("-1/2", f[3]))
            ELSE IF i = m THEN VAdd(VAdd(VScale("3/2", f[m]), VScale("-2", f[m - 1])), VScale("1/2", f[m - 2]))
            ELSE VScale(Half, VSub(f[i + 1], f[i - 1]))])

\* the same on approximated vectors
FDA(f, u) ==
  LET m == Len(f)
      d == FD([i \in 1..m |-> f[i].v])
      mag(i) == VMaxAbs(f[i].v)
      err(S, k) == IF \E j \in 1..Len(S) : Bad(f[S[j]]) THEN "inf"
                   ELSE RMul(k, VSum([j \in 1..Len(S) |->
                          RAdd(f[S[j]].e, RMul(u, mag(S[j])))]))
  IN IF m = 0 THEN <<>>
     ELSE IF m = 1 THEN <<AV(d[1], Zero)>>
     ELSE IF m = 2 THEN <<AV(d[1], err(<<1, 2>>, "1")), AV(d[2], err(<<1, 2>>, "1"))>>
     ELSE TLCEval([i \in 1..m |->
            AV(VRnd(d[i]), IF i = 1 THEN err(<<1, 2, 3>>, "2") ELSE IF i = m THEN err(<<m - 2, m - 1, m>>, "2")
                           ELSE err(<<i - 1, i + 1>>, "1"))])

SqrtN(n) == IF n <= 4 THEN "2" ELSE "3"

(* an approximated vector's length *)
LenA(a, u) ==
  IF Bad(a) THEN AV(Zero, "inf")
  ELSE LET s == VNorm(a.v)
       IN AV(s, RAdd(RMul(SqrtN(Len(a.v)), a.e), RMul(u, s)))

\* does the length vanish: "T", "F" or "U"
Vanishes(l) ==
  IF Bad(l) THEN "U"
  ELSE IF RLt(RAdd(l.v, l.e), RMul("999/1000", Small)) THEN "T"
  ELSE IF RLt(RMul("1001/1000", Small), RSub(l.v, l.e)) THEN "F" ELSE "U"

(* normalised unless it vanishes *)
UnitA(a, u) ==
  LET l == LenA(a, u)
      z == Vanishes(l)
  IN IF z = "U" THEN AV(a.v, "inf")
     ELSE IF z = "T" THEN a
     ELSE IF RLt(l.v, RMul("8", l.e)) THEN AV(a.v, "inf")
     ELSE AV(VRnd(VScale(RDiv(One, l.v), a.v)), RAdd(RMul("4", RDiv(l.e, l.v)), u))

(* a - <a, e> e *)
RejectA(a, b, e, u) ==     \* b - <a, e> e
  IF Bad(a) \/ Bad(b) \/ Bad(e) THEN AV(a.v, "inf")
  ELSE LET k == RRnd(VDot(a.v, e.v))
           n == RInt(Len(a.v))
           \* error of the dot product
           ek == RMul(n, RAdd(RAdd(RMul(VMaxAbs(a.v), e.e), RMul(a.e, RAdd(VMaxAbs(e.v), e.e))),
                              RMul(u, RMul(VMaxAbs(a.v), VMaxAbs(e.v)))))
           r == VRnd(VSub(b.v, VScale(k, e.v)))
       IN AV(r, RAdd(RAdd(b.e, RMul(ek, RAdd(VMaxAbs(e.v), e.e))),
                     RAdd(RMul(RAbs(k), e.e), RMul(u, RAdd(VMaxAbs(b.v), RMul(RAbs(k), VMaxAbs(e.v)))))))

(* all quantities of a curve *)
Frame(pts, dt) ==
  LET u == UnitOf(dt)
      m == Len(pts)
      p0 == TLCEval([i \in 1..m |-> AV(pts[i], Zero)])
      d1 == TLCEval(FDA(p0, u))
      d2 == TLCEval(FDA(d1, u))
      d3 == TLCEval(FDA(d2, u))
      sp == TLCEval([i \in 1..m |-> LenA(d1[i], u)])
      e1 == TLCEval([i \in 1..m |-> UnitA(d1[i], u)])
      nr == TLCEval([i \in 1..m |-> RejectA(d2[i], d2[i], e1[i], u)])
      e2 == TLCEval([i \in 1..m |-> UnitA(nr[i], u)])
      b1 == TLCEval([i \in 1..m |-> RejectA(d3[i], d3[i], e1[i], u)])
      bn == TLCEval([i \in 1..m |-> RejectA(d3[i], b1[i], e2[i], u)])
      e3 == TLCEval([i \in 1..m |-> UnitA(bn[i], u)])
  IN [d1 |-> d1, d2 |-> d2, d3 |-> d3, sp |-> sp, e1 |-> e1, nr |-> nr, e2 |-> e2, bn |-> bn, e3 |-> e3]

\* quotient of approximated numbers; nothing is decided for a (nearly) vanishing divisor
QuotA(a, b, u) ==
  IF Bad(a) \/ Bad(b) \/ RLe(b.v, RMul("8", b.e)) THEN AV(Zero, "inf")
  ELSE LET q == RRnd(RDiv(a.v, b.v))
       IN AV(q, RAdd(RMul("2", RDiv(RAdd(a.e, RMul(RAbs(q), b.e)), b.v)), RMul(u, RAbs(q))))

DotA(a, b, u) ==
  IF Bad(a) \/ Bad(b) THEN AV(Zero, "inf")
  ELSE AV(RRnd(VDot(a.v, b.v)),
          RMul(RInt(Len(a.v)),
               RAdd(RAdd(RMul(VMaxAbs(a.v), b.e), RMul(a.e, RAdd(VMaxAbs(b.v), b.e))),
                    RMul(u, RMul(VMaxAbs(a.v), VMaxAbs(b.v))))))

CurvatureA(fr, nd, u) ==
  LET m == Len(fr.d1)
  IN IF nd = 2
       THEN [i \in 1..m |->
              LET a == fr.d1[i]
                  b == fr.d2[i]
                  c == RSub(RMul(a.v[1], b.v[2]), RMul(a.v[2], b.v[1]))
                  e == RMul("2", RAdd(RAdd(RMul(VMaxAbs(a.v), b.e), RMul(a.e, RAdd(VMaxAbs(b.v), b.e))),
                                      RMul(u, RMul(VMaxAbs(a.v), VMaxAbs(b.v)))))
                  s == fr.sp[i]
                  s3 == AV(RRnd(RMul(s.v, RMul(s.v, s.v))),
                           RMul("4", RMul(RMul(s.v, s.v), RAdd(s.e, RMul(u, s.v)))))
              IN IF Bad(a) \/ Bad(b) \/ Bad(s) THEN AV(Zero, "inf") ELSE QuotA(AV(c, e), s3, u)]
       ELSE LET g == TLCEval(FDA(fr.e1, u))
            IN [i \in 1..m |-> QuotA(LenA(g[i], u), fr.sp[i], u)]

TorsionA(fr, u) ==
  LET g == TLCEval(FDA(fr.e2, u))
  IN [i \in 1..Len(fr.d1) |-> QuotA(DotA(g[i], fr.e3[i], u), fr.sp[i], u)]
=============================================================================
