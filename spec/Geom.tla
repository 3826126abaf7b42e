-------------------------------- MODULE Geom --------------------------------
(* Segments and sets of points in n-dimensional space, exactly.  A segment is *)
(* a pair of points <<p1, p2>>.                                               *)
(*                                                                            *)
(* The predicates are three-valued for judging an implementation in floating  *)
(* point: "T" (it must say yes), "F" (it must say no), "U" (so close to the   *)
(* boundary that rounding decides).                                           *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC

EPS == "1/4503599627370496"          \* 2^-52

Dir(s) == VSub(s[2], s[1])
At(s, t) == VAdd(s[1], VScale(t, Dir(s)))
Rev(s) == <<s[2], s[1]>>
Len2(s) == VNorm2(Dir(s))
SegMax(s) == RMax(VMaxAbs(s[1]), VMaxAbs(s[2]))
RECURSIVE PtsMaxTo(_, _)
PtsMaxTo(ps, n) == IF n = 0 THEN Zero ELSE RMax(PtsMaxTo(ps, n - 1), VMaxAbs(ps[n]))
PtsMax(ps) == PtsMaxTo(ps, Len(ps))

(* ---------------------------- exact predicates --------------------------- *)
CrossSq(u, v) == RSub(RMul(VNorm2(u), VNorm2(v)), RSqr(VDot(u, v)))       \* |u|^2 |v|^2 sin^2
ParallelX(s, r) == CrossSq(Dir(s), Dir(r)) = Zero

Diffs(ps) == [i \in 1..(Len(ps) - 1) |-> VSub(ps[i + 1], ps[1])]
CollinearX(ps) == LET d == Diffs(ps) IN \A i, j \in 1..Len(d) : i < j => CrossSq(d[i], d[j]) = Zero

Gram3(u, v, w) ==
  LET a == VNorm2(u) b == VDot(u, v) c == VDot(u, w) d == VNorm2(v) e == VDot(v, w) f == VNorm2(w)
  IN RAdd(RSub(RMul(a, RSub(RMul(d, f), RMul(e, e))), RMul(b, RSub(RMul(b, f), RMul(c, e)))),
          RMul(c, RSub(RMul(b, e), RMul(c, d))))
CoplanarX(ps) ==
  LET d == Diffs(ps) IN \A i, j, k \in 1..Len(d) : (i < j /\ j < k) => Gram3(d[i], d[j], d[k]) = Zero

(* ------------------------------- distances ------------------------------- *)
DistPS2(p, s) ==
  LET u == Dir(s)
      a == VNorm2(u)
  IN IF a = Zero THEN VNorm2(VSub(p, s[1]))
     ELSE VNorm2(VSub(p, At(s, RClamp01(RDiv(VDot(VSub(p, s[1]), u), a)))))

RMin4(a, b, c, d) == RMin(RMin(a, b), RMin(c, d))
Ends2(s, r) == RMin4(DistPS2(s[1], r), DistPS2(s[2], r), DistPS2(r[1], s), DistPS2(r[2], s))

\* parameters of the closest points of the two lines (not parallel)
LineT(s, r) ==
  LET u == Dir(s) v == Dir(r) w == VSub(s[1], r[1])
      a == VNorm2(u) b == VDot(u, v) c == VNorm2(v) d == VDot(u, w) e == VDot(v, w)
      D == RSub(RMul(a, c), RSqr(b))
  IN <<RDiv(RSub(RMul(b, e), RMul(c, d)), D), RDiv(RSub(RMul(a, e), RMul(b, d)), D)>>
In01(t) == RLe(Zero, t) /\ RLe(t, One)
DistSq(s, r) ==
  IF ParallelX(s, r) THEN Ends2(s, r)
  ELSE LET t == LineT(s, r)
           k == Ends2(s, r)
       IN IF In01(t[1]) /\ In01(t[2]) THEN RMin(k, VNorm2(VSub(At(s, t[1]), At(r, t[2])))) ELSE k

(* ----------------------- overlap of collinear segments ------------------- *)
\* the direction of the line, or zero if all the points coincide
LineDir(s, r) == IF Len2(s) # Zero THEN Dir(s) ELSE IF Len2(r) # Zero THEN Dir(r) ELSE VSub(r[1], s[1])
Lower(s, d) == IF RLe(VDot(s[1], d), VDot(s[2], d)) THEN s[1] ELSE s[2]
Upper(s, d) == IF RLe(VDot(s[1], d), VDot(s[2], d)) THEN s[2] ELSE s[1]
NoSeg == <<>>
OverlapX(s, r) ==
  LET d == LineDir(s, r)
      lo == IF RLt(VDot(Lower(s, d), d), VDot(Lower(r, d), d)) THEN Lower(r, d) ELSE Lower(s, d)
      hi == IF RLt(VDot(Upper(r, d), d), VDot(Upper(s, d), d)) THEN Upper(r, d) ELSE Upper(s, d)
  IN IF RLt(VDot(hi, d), VDot(lo, d)) THEN NoSeg ELSE <<lo, hi>>

(* ------------------------------ intersection ----------------------------- *)
InterNone == [k |-> "none", seg |-> NoSeg, p |-> <<>>]
InterX(s, r) ==
  IF CollinearX(<<s[1], s[2], r[1], r[2]>>)
    THEN LET o == OverlapX(s, r) IN IF o = NoSeg THEN InterNone ELSE [k |-> "overlap", seg |-> o, p |-> <<>>]
  ELSE IF ParallelX(s, r) \/ DistSq(s, r) # Zero THEN InterNone
  ELSE [k |-> "exact", seg |-> NoSeg, p |-> At(s, LineT(s, r)[1])]

(* ------------------------ three-valued predicates ------------------------ *)
Representable(v) == \A i \in 1..Len(v) : RCast(v[i], "float64") = v[i]
ExactDiffs(ps) == \A i, j \in 1..Len(ps) : i < j => Representable(VSub(ps[j], ps[i]))

\* relative error of a direction because of the rounding of its coordinates
DirNoise(s) == IF Len2(s) = Zero THEN Zero ELSE RDiv(RMul(RMul("4", EPS), SegMax(s)), VNorm(Dir(s)))

ParallelTri(s, r) ==
  LET D == CrossSq(Dir(s), Dir(r))
      ac == RMul(Len2(s), Len2(r))
      nz == RAdd(DirNoise(s), DirNoise(r))
  IN IF D = Zero /\ ExactDiffs(s) /\ ExactDiffs(r) THEN "T"
     ELSE IF RLt(RMul(ac, RAdd("1/1000000000000", RMul("4", RSqr(nz)))), D) THEN "F" ELSE "U"

\* elementary symmetric functions of the squared singular values of the rows d
E1(d) == VSum([i \in 1..Len(d) |-> VNorm2(d[i])])
E2(d) == VSum([i \in 1..Len(d) |-> VSum([j \in 1..(i - 1) |-> CrossSq(d[j], d[i])])])
E3(d) == VSum([i \in 1..Len(d) |-> VSum([j \in 1..(i - 1) |-> VSum([k \in 1..(j - 1) |-> Gram3(d[k], d[j], d[i])])])])
Choose2(n) == RInt((n * (n - 1)) \div 2)
Choose3(n) == RInt((n * (n - 1) * (n - 2)) \div 6)

Same(a, b) == \A i \in 1..Len(a) : RIsClose(a[i], b[i]) \/ RIsClose(b[i], a[i])

\* off the line by more than 1e-12 of the coordinates
CollinearTri(ps) ==
  LET d == Diffs(ps)
      e1 == E1(d)
      e2 == E2(d)
      m2 == RSqr(RMul("1/1000000000000", PtsMax(ps)))
      r == Len(d)
  IN IF (e2 = Zero /\ ExactDiffs(ps)) \/ r < 2 THEN "T"
     \* rounding of points of one line: far below the precision of the coordinates
     ELSE IF RLe(RMul(RInt(16 * r), e2), RMul(e1, RSqr(RMul(EPS, PtsMax(ps))))) THEN "T"
     ELSE IF RLt(RMul(RMul(Choose2(r), e1), m2), e2) THEN "F" ELSE "U"

\* points which the library takes for the same point are on any line through it
CollinearPS(p, s) ==
  LET t == CollinearTri(<<s[1], s[2], p>>)
  IN IF t # "T" /\ (Same(p, s[1]) \/ Same(p, s[2]) \/ Same(s[1], s[2])) THEN "U" ELSE t
CollinearSS(s, r) ==
  LET t == CollinearTri(<<s[1], s[2], r[1], r[2]>>)
  IN IF t # "T" /\ ((Same(s[1], r[1]) /\ Same(s[2], r[2])) \/ (Same(s[1], r[2]) /\ Same(s[2], r[1]))) THEN "U" ELSE t

CoplanarTri(ps) ==
  LET d == Diffs(ps)
      r == Len(d)
      e1 == E1(d)
      e2 == E2(d)
      e3 == E3(d)
      m2 == RSqr(RMul("1/100000000000000", PtsMax(ps)))
  IN IF Len(ps[1]) < 3 \/ r < 3 THEN "T"
     ELSE IF e3 = Zero /\ ExactDiffs(ps) THEN "T"
     ELSE IF RLt(RMul(RMul(Choose3(r), e2), RAdd(RMul("1/100000000000000000000000", e1), RMul("4", m2))), e3) THEN "F"
     ELSE "U"

(* An explicit tolerance bounds the singular values which are taken for zero:   *)
(* of the differences of the points to one of them.  The reference point is not *)
(* specified, so the answer is decided only if all of them agree by far.        *)
From(ps, i) == [j \in 1..(Len(ps) - 1) |-> VSub(ps[IF j < i THEN j ELSE j + 1], ps[i])]
Unknown(tol, ps) == RLt(tol, RMul("1/1000000000000", PtsMax(ps)))        \* in the rounding of the coordinates
Distinct(ps) == LET S == {ps[i] : i \in 1..Len(ps)} IN SetToSeq(S)

CollinearAt(ps_, tol) ==
  LET ps == Distinct(ps_)
      r == Len(ps) - 1
      e1 == [i \in 1..Len(ps) |-> E1(From(ps, i))]
      e2 == [i \in 1..Len(ps) |-> E2(From(ps, i))]
      t2 == RMul("16", RSqr(tol))
  IN IF r < 2 THEN "T"
     ELSE IF Unknown(tol, ps) THEN "U"
     ELSE IF \A i \in 1..Len(ps) : RLe(RMul(RInt(16 * r), e2[i]), RMul(e1[i], RSqr(tol))) THEN "T"
     ELSE IF \A i \in 1..Len(ps) : RLt(RMul(RMul(Choose2(r), e1[i]), t2), e2[i]) THEN "F" ELSE "U"

CoplanarAt(ps, tol) ==
  LET r == Len(ps) - 1
      e2 == [i \in 1..Len(ps) |-> E2(From(ps, i))]
      e3 == [i \in 1..Len(ps) |-> E3(From(ps, i))]
      t2 == RMul("16", RSqr(tol))
  IN IF Len(ps[1]) < 3 \/ r < 3 THEN "T"
     ELSE IF Unknown(tol, ps) THEN "U"
     ELSE IF \A i \in 1..Len(ps) : RLe(RMul(RMul("16", Choose2(r)), e3[i]), RMul(e2[i], RSqr(tol))) THEN "T"
     ELSE IF \A i \in 1..Len(ps) : RLt(RMul(RMul(Choose3(r), e2[i]), t2), e3[i]) THEN "F" ELSE "U"

\* a tolerance of the squared sine of the angle, never below rounding
ParallelAt(s, r, tol) ==
  LET D == CrossSq(Dir(s), Dir(r))
      ac == RMul(Len2(s), Len2(r))
      t == ParallelTri(s, r)
  IN IF t = "T" \/ ac = Zero THEN t
     ELSE IF RLt(RMul("2", D), RMul(ac, tol)) THEN "T"
     ELSE IF t = "F" /\ RLt(RMul(ac, RMul("2", tol)), D) THEN "F" ELSE "U"

\* the tolerance "" is the default one
CollinearWith(ps, tol) == IF tol = "" THEN CollinearTri(ps) ELSE CollinearAt(ps, tol)
CoplanarWith(ps, tol) == IF tol = "" THEN CoplanarTri(ps) ELSE CoplanarAt(ps, tol)
ParallelWith(s, r, tol) == IF tol = "" THEN ParallelTri(s, r) ELSE ParallelAt(s, r, tol)
CollinearPSWith(p, s, tol) ==
  LET t == CollinearWith(<<s[1], s[2], p>>, tol)
  IN IF t # "T" /\ (Same(p, s[1]) \/ Same(p, s[2]) \/ Same(s[1], s[2])) THEN "U" ELSE t
CollinearSSWith(s, r, tol) ==
  LET t == CollinearWith(<<s[1], s[2], r[1], r[2]>>, tol)
  IN IF t # "T" /\ ((Same(s[1], r[1]) /\ Same(s[2], r[2])) \/ (Same(s[1], r[2]) /\ Same(s[2], r[1]))) THEN "U" ELSE t
=============================================================================
