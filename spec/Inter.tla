-------------------------------- MODULE Inter -------------------------------
(* What intersecting segments and curves must report.                         *)
(*                                                                            *)
(* A reported record is [type |-> "EXACT" | "OVERLAP" | "ALMOST", seg |->     *)
(* <<p, q>>]: the reported point twice, the overlap or the connecting segment.*)
EXTENDS Geom

SegmentsOf(pts) == [i \in 1..(IF Len(pts) = 0 THEN 0 ELSE Len(pts) - 1) |-> <<pts[i], pts[i + 1]>>]

SinSegs(s, r) == LET ac == RMul(Len2(s), Len2(r)) IN IF ac = Zero THEN Zero ELSE RSqrt(RDiv(CrossSq(Dir(s), Dir(r)), ac))
CloseEnds(s) == Same(s[1], s[2])
MaxOf(s, r) == RMax(SegMax(s), SegMax(r))
MaxLen(s, r) == RSqrt(RMax(Len2(s), Len2(r)))

(* ------------------------------ exact method ----------------------------- *)
\* the specified answer: k is "none", "overlap" (seg), "exact" (p, tol) or "u"
Ans(k, seg, p, tol) == [k |-> k, seg |-> seg, p |-> p, tol |-> tol]
Undecided == Ans("u", NoSeg, <<>>, Zero)
NoInter == Ans("none", NoSeg, <<>>, Zero)

\* the distance of segments that surely do not meet: beyond the closeness of the library
Margin(s, r) == RAdd("1/20000000", RMul("1/20000", RMax(MaxLen(s, r), MaxOf(s, r))))

\* solving for the crossing point is ill-conditioned for small angles
ExactTol(s, r) ==
  LET sn == SinSegs(s, r)
      lmin == RSqrt(RMin(Len2(s), Len2(r)))
  IN RMul("1/1000000000000", RDiv(RMul(MaxOf(s, r), RAdd(One, RDiv(MaxLen(s, r), lmin))), RMul(sn, sn)))

InterE(s, r) ==
  LET ps == <<s[1], s[2], r[1], r[2]>>
      col == CollinearSS(s, r)
      d2 == DistSq(s, r)
      far == RLt(RSqr(Margin(s, r)), d2)
  IN IF CollinearX(ps) /\ ExactDiffs(ps)
       THEN LET o == OverlapX(s, r) IN IF o = NoSeg THEN NoInter ELSE Ans("overlap", o, <<>>, Zero)
     ELSE IF col # "F" THEN (IF far THEN NoInter ELSE Undecided)
     ELSE IF far \/ (ParallelX(s, r) /\ ExactDiffs(s) /\ ExactDiffs(r)) THEN NoInter
     ELSE IF CloseEnds(s) \/ CloseEnds(r) \/ RLt(SinSegs(s, r), "1/10000") THEN Undecided
     ELSE IF d2 = Zero /\ CoplanarTri(ps) = "T" THEN Ans("exact", NoSeg, At(s, LineT(s, r)[1]), ExactTol(s, r))
     ELSE IF d2 = Zero THEN Undecided
     ELSE IF CoplanarTri(ps) = "F" THEN NoInter
     ELSE Undecided

SameEnds(a, b) == (a[1] = b[1] /\ a[2] = b[2]) \/ (a[1] = b[2] /\ a[2] = b[1])

\* even where whether they meet is undecided, a reported point or overlap must be near both segments
NearBoth(s, r, seg) ==
  LET m2 == RSqr(RMul("4", Margin(s, r)))
  IN \A i \in {1, 2} : RLe(DistPS2(seg[i], s), m2) /\ RLe(DistPS2(seg[i], r), m2)

\* the record (or "none") is an admissible answer
RecordOk(e, s, r, type, seg) ==
  CASE e.k = "none" -> type = "NONE"
    [] e.k = "overlap" -> type = "OVERLAP" /\ SameEnds(seg, e.seg)
    [] e.k = "exact" -> type = "EXACT" /\ VNear(seg[1], e.p, e.tol)
    [] OTHER -> type \in {"NONE", "EXACT", "OVERLAP"} /\ (type = "NONE" \/ NearBoth(s, r, seg))

(* ---------------------------- almost intersections ----------------------- *)
U44 == "1/17592186044416"
AlmostTol(s, r) ==
  LET base == RMul(U44, MaxOf(s, r))
      sn == SinSegs(s, r)
      L == RSqrt(RMin(Len2(s), Len2(r)))
  IN RAdd(base, IF sn = Zero THEN Zero ELSE RMin(RDiv(base, sn), RMul(L, sn)))

\* closer than the tolerance?
CloserTri(s, r, dt) ==
  LET d == RSqrt(DistSq(s, r))
      t == RMul("4", AlmostTol(s, r))
  IN IF RLt(RAdd(d, t), dt) THEN "T" ELSE IF RLe(dt, RSub(d, t)) THEN "F" ELSE "U"

\* c is the shortest connection of s and r
Connects(s, r, c) ==
  LET t == RMul("4", AlmostTol(s, r))
      t2 == RSqr(t)
  IN RLe(DistPS2(c[1], s), t2) /\ RLe(DistPS2(c[2], r), t2)
     /\ RNear(VNorm(Dir(c)), RSqrt(DistSq(s, r)), RMul("4", t))

\* after correcting overlaps; ptol is the tolerance of being parallel, "" the default one
CorrectedOk(s, r, before, type, seg, ptol) ==
  LET ps == <<s[1], s[2], r[1], r[2]>>
      par == ParallelWith(s, r, ptol)
      unchanged == type = "ALMOST" /\ (before = <<>> \/ seg = before)
      o == OverlapX(s, r)
      replaced == type = "OVERLAP" /\ o # NoSeg /\ SameEnds(seg, o)
  IN IF par = "F" THEN unchanged
     ELSE IF CollinearX(ps) /\ par = "T" THEN (IF o = NoSeg THEN unchanged ELSE replaced)
     ELSE unchanged \/ type = "OVERLAP"

(* ---------------------- removal of extra intersections ------------------- *)
Mid(c) == VScale(Half, VAdd(c[1], c[2]))

\* "T"/"F"/"U": the intersection points of records a and b are closer than the tolerance
NearTri(a, b, tol) ==
  LET d2 == VNorm2(VSub(Mid(a), Mid(b)))
  IN IF RLt(d2, RSqr(RMul(tol, "999999/1000000"))) THEN "T"
     ELSE IF RLt(RSqr(RMul(tol, "1000001/1000000")), d2) THEN "F" ELSE "U"

RECURSIVE Close(_, _)
Close(set, E) == LET n == set \cup {j \in DOMAIN E : \E i \in set : <<i, j>> \in E[j]} IN IF n = set THEN set ELSE Close(n, E)
\* the cluster of record i among the observed connections cs
Clusters(cs, tol) ==
  LET n == Len(cs)
      E == TLCEval([j \in 1..n |-> {<<i, j>> : i \in {k \in 1..n : k # j /\ NearTri(cs[k], cs[j], tol) = "T"}}])
  IN {Close({i}, E) : i \in 1..n}

\* kept: the indices of the records that were kept
ExtraOk(cs, tol, kept) ==
  IF \E i, j \in 1..Len(cs) : i < j /\ NearTri(cs[i], cs[j], tol) = "U" THEN TRUE
  ELSE LET K == {kept[i] : i \in 1..Len(kept)}
           short(i) == VNorm(Dir(cs[i]))
       IN /\ \A i \in 1..(Len(kept) - 1) : kept[i] < kept[i + 1]
          /\ \A C \in Clusters(cs, tol) :
               /\ Cardinality(C \cap K) = 1
               /\ \A k \in C \cap K : \A i \in C :
                    RLe(short(k), RAdd(RMul(short(i), "1000000001/1000000000"), "1/1000000000000000"))

(* ---------------------------- pairs of a curve --------------------------- *)
\* self-intersection looks only at i < j that are not neighbours
PairWanted(i, j, self) == ~self \/ i + 2 <= j
Ordered(rs) == \A k \in 1..(Len(rs) - 1) : rs[k].i < rs[k + 1].i \/ (rs[k].i = rs[k + 1].i /\ rs[k].j < rs[k + 1].j)
=============================================================================
