------------------------------ MODULE TraceGeom -----------------------------
(* Recorded calls of segments and of the geometric predicates (C16 - C19).    *)
EXTENDS TraceFn, Geom

U16 == "1/281474976710656"           \* 16 units in the last place
F16 == "1/524288"
UnitS(f32) == IF f32 THEN F16 ELSE U16

SG(ev) == <<ev.s[1], ev.s[2]>>
RG(ev) == <<ev.r[1], ev.r[2]>>

(* ---------------------------------- C16 ---------------------------------- *)
AtTol(s, t, u) == RMul(u, RMul(SegMax(s), RAdd("2", RMul("2", RAbs(t)))))
SegPointFails(ev) ==
  IF ev.out.k # "val" THEN {"C16: the point at a parameter fails"}
  ELSE F("C16: one point per parameter, in order", Len(ev.out.v) = Len(ev.ts))
       \union F("C16: the point at t is p1 + t (p2 - p1)",
                Len(ev.out.v) # Len(ev.ts) \/
                \A i \in 1..Len(ev.ts) :
                  VNear(ev.out.v[i], At(SG(ev), ev.ts[i]), AtTol(SG(ev), ev.ts[i], UnitS(ev.f32))))

\* the parameter of the point, or "nan"
TOk(s, p, o, u, tol_) ==
  LET tri == CollinearPSWith(p, s, tol_)
      e == RDiv(VDot(VSub(p, s[1]), Dir(s)), Len2(s))
      tol == RMul(RMul(u, "4"), RAdd(RAdd(One, RAbs(e)), RDiv(RMul("4", RAdd(SegMax(s), VMaxAbs(p))), VNorm(Dir(s)))))
  IN IF Len2(s) = Zero THEN TRUE
     ELSE CASE tri = "T" -> RNear(o, e, tol)
            [] tri = "F" -> o = "nan"
            [] OTHER -> TRUE
SegTFails(ev) ==
  IF ev.out.k # "val" THEN {"C16: the parameter of a point fails"}
  ELSE F("C16: one parameter per point, in order", Len(ev.out.v) = Len(ev.ps))
       \union F("C16: the parameter gives the point back, and is NaN off the line",
                Len(ev.out.v) # Len(ev.ps) \/
                \A i \in 1..Len(ev.ps) : TOk(SG(ev), ev.ps[i], ev.out.v[i], UnitS(ev.f32), ev.tol))

SegBasicFails(ev) ==
  LET s == SG(ev)
      o == ev.out.v
      u == UnitS(ev.f32)
      lim == RMul(u, SegMax(s))
  IN IF ev.out.k # "val" THEN {"C16: reading a segment fails"}
     ELSE F("C16: end points", o.data = s /\ o.ndim = Len(s[1]))
          \union F("C16: direction", VNear(o.dir, Dir(s), lim))
          \union F("C16: length", RNear(o.len, VNorm(Dir(s)), RMul("8", lim)))
          \union F("C16: dot product of the end points", RNear(o.dot, VDot(s[1], s[2]), RMul(RMul("16", u), RMul(SegMax(s), SegMax(s)))))
          \union F("C16: reversal swaps the end points", o.rev = Rev(s))
          \union F("C16: singularity", TriOk(EqPt(s[1], s[2], ev.isint), o.singular))
          \union F("C16: conversion to a curve", o.curve = s)

SegEqFails(ev) ==
  ValFails("C16", "segments are equal when both end points are",
           TriOk(AllTri({EqPt(ev.s[1], ev.r[1], ev.isint), EqPt(ev.s[2], ev.r[2], ev.isint)}), ev.out.v.eq)
           /\ ev.out.v.ne = ~ev.out.v.eq, ev.out)

(* ---------------------------------- C17 ---------------------------------- *)
Par(ev) == ParallelWith(SG(ev), RG(ev), ev.ptol)
Col(ev) == CollinearSSWith(SG(ev), RG(ev), ev.tol)
Cop(ev) == CoplanarWith(<<ev.s[1], ev.s[2], ev.r[1], ev.r[2]>>, ev.tol)

\* every reading of a predicate: both orders of the segments and of the end points
All(tri, bs) == \A i \in 1..Len(bs) : TriOk(tri, bs[i])

PairFails(ev) ==
  IF ev.out.k # "val" THEN {"C17: a predicate fails"}
  ELSE F("C17: parallel", All(Par(ev), ev.out.v.par))
       \union F("C17: collinear", All(Col(ev), ev.out.v.col))
       \union F("C17: coplanar", All(Cop(ev), ev.out.v.cop))

PointPredFails(ev) ==
  IF ev.out.k # "val" THEN {"C17: a predicate fails"}
  ELSE F("C17: collinear with a point", All(CollinearPSWith(ev.p, SG(ev), ev.tol), ev.out.v.col))
       \union F("C17: coplanar with a point", All(CoplanarWith(<<ev.s[1], ev.s[2], ev.p>>, ev.tol), ev.out.v.cop))

IsPlaneFails(ev) == ValFails("C17", "a curve is plane when its points are coplanar",
                             ev.pts = <<>> \/ TriOk(CoplanarTri(ev.pts), ev.out.v), ev.out)

\* arccos is compared through its cosine
PiUp == "3537118876014220/1125899906842624"
AngleFails(ev) ==
  LET s == SG(ev)
      r == RG(ev)
      den == RSqrt(RMul(Len2(s), Len2(r)))
      c == RDiv(VDot(Dir(s), Dir(r)), den)
      tol == RAdd(RMul("8", U16), RMul("4", RAdd(DirNoise(s), DirNoise(r))))
      o == ev.out.v
      co == RCos(o)
      sc == ev.scale                        \* 10^ndigits, or 0
      k == RRoundEven(RMul(co, sc))
  IN IF ev.out.k # "val" THEN {"C17: the angle fails"}
     ELSE IF den = Zero THEN F("C17: the angle of a singular segment is NaN", o = "nan")
     ELSE F("C17: the angle is in [0, pi]", RIsFin(o) /\ RLe(Zero, o) /\ RLe(o, PiUp))
          \union F("C17: the angle is the arc cosine of the normalised dot product",
                   RIsFin(o) /\
                   (IF sc = Zero THEN RNear(co, c, tol)
                    ELSE RLe(RAbs(RSub(co, RDiv(k, sc))), tol)
                         /\ RLe(RAbs(RSub(k, RMul(c, sc))), RAdd(Half, RMul(sc, tol)))))

(* ---------------------------------- C18 ---------------------------------- *)
AxisNear(ps, i) == \A j \in 1..Len(ps) : ps[j][i] = ps[1][i]
SamePair(a, b) == (a[1] = b[1] /\ a[2] = b[2]) \/ (a[1] = b[2] /\ a[2] = b[1])

\* the specified overlap: [k |-> "none"], ["seg", the end points] or ["u"] undecided
OverlapE(s, r, check) ==
  LET ps == <<s[1], s[2], r[1], r[2]>>
  IN IF CollinearX(ps) /\ (~check \/ ExactDiffs(ps))
       THEN LET o == OverlapX(s, r) IN IF o = NoSeg THEN [k |-> "none", s |-> o] ELSE [k |-> "seg", s |-> o]
     ELSE IF check /\ CollinearSS(s, r) = "F" THEN [k |-> "none", s |-> NoSeg]
     ELSE [k |-> "u", s |-> NoSeg]
OverlapOk(e, o) ==       \* o: <<>> for nothing, or the end points
  CASE e.k = "u" -> TRUE
    [] e.k = "none" -> o = NoSeg
    [] OTHER -> o # NoSeg /\ SamePair(o, e.s)
OverlapFails(ev) ==
  ValFails("C18", IF ev.check THEN "overlap with a check of collinearity" ELSE "the overlap is the common part",
           LET e == OverlapE(SG(ev), RG(ev), ev.check) IN \A i \in 1..Len(ev.out.v) : OverlapOk(e, ev.out.v[i]), ev.out)

(* ---------------------------------- C19 ---------------------------------- *)
\* admissible error of a distance
SinSeg(s, r) == LET ac == RMul(Len2(s), Len2(r)) IN IF ac = Zero THEN Zero ELSE RSqrt(RDiv(CrossSq(Dir(s), Dir(r)), ac))
DTol(s, r) ==
  LET base == RMul(RMul("16", U16), RMax(SegMax(s), SegMax(r)))
      sn == SinSeg(s, r)
      L == RMin(VNorm(Dir(s)), VNorm(Dir(r)))
  IN RAdd(base, IF sn = Zero THEN Zero ELSE RMin(RDiv(base, sn), RMul(L, sn)))

\* the observed connecting segment c joins the objects and is the shortest
ShortOk(s, r, c, tol) ==
  LET d == RSqrt(DistSq(s, r))
      t2 == RSqr(tol)
  IN <<RLe(DistPS2(c[1], s), t2), RLe(DistPS2(c[2], r), t2), RNear(VNorm(Dir(c)), d, RMul("4", tol))>>

ShortFails(ev) ==
  LET s == SG(ev)
      r == IF ev.point THEN <<ev.r[1], ev.r[1]>> ELSE RG(ev)
      tol == IF ev.f32 THEN RAdd(RMul("8", DTol(s, r)), RMul(F16, RMax(SegMax(s), SegMax(r)))) ELSE DTol(s, r)
      o == ev.out.v
      ok == ShortOk(s, r, o.c, tol)
  IN IF ev.out.k # "val" THEN {"C19: the shortest segment fails"}
     ELSE F("C19: the shortest segment starts on the segment", ok[1])
          \union F("C19: the shortest segment ends on the other object", ok[2])
          \union F("C19: the shortest segment is the shortest", ok[3])
          \union F("C19: the distance is the length of the shortest segment",
                   RNear(o.d, VNorm(Dir(o.c)), RMul(RMul("4", UnitS(ev.f32)), RAdd(RMax(SegMax(s), SegMax(r)), Zero))))
          \union F("C19: the distance is the minimum", RNear(o.d, RSqrt(DistSq(s, r)), RMul("4", tol)))
          \union F("C19: the distance is symmetric", RNear(o.dr, RSqrt(DistSq(s, r)), RMul("4", tol)))
          \union F("C19: the shortest segment to a point ends at the point", ~ev.point \/ o.c[2] = ev.r[1])

GeomFails(ev) ==
  CASE ev.op = "segpoint" -> SegPointFails(ev)
    [] ev.op = "segt" -> SegTFails(ev)
    [] ev.op = "segbasic" -> SegBasicFails(ev)
    [] ev.op = "segeq" -> SegEqFails(ev)
    [] ev.op = "pair" -> PairFails(ev)
    [] ev.op = "pointpred" -> PointPredFails(ev)
    [] ev.op = "isplane" -> IsPlaneFails(ev)
    [] ev.op = "angle" -> AngleFails(ev)
    [] ev.op = "overlap" -> OverlapFails(ev)
    [] ev.op = "short" -> ShortFails(ev)
    [] ev.op = "reject" -> ErrFails(ev.prop, ToSet(ev.expected), ev.out)
=============================================================================
