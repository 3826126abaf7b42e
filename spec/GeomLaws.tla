------------------------------ MODULE GeomLaws ------------------------------
(* The geometric laws, checked on the specification for every pair of         *)
(* segments of a small grid: what Geom.tla defines really is a distance, an   *)
(* overlap and an intersection.                                               *)
EXTENDS Geom

CONSTANTS Side, Dim                   \* the grid 0..Side-1 in Dim dimensions

Grid == [1..Dim -> {RInt(i) : i \in 0..(Side - 1)}]
Seg(p, q) == <<p, q>>

VARIABLES s, r
vars == <<s, r>>
Init == \E p, q, a, b \in Grid : s = Seg(p, q) /\ r = Seg(a, b)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Set(x) == {x[i] : i \in 1..Len(x)}
Shift == [i \in 1..Dim |-> RInt(7 * i - 3)]
Moved(x) == <<VAdd(x[1], Shift), VAdd(x[2], Shift)>>
Orders == {<<r, s>>, <<Rev(s), r>>, <<s, Rev(r)>>, <<Rev(s), Rev(r)>>, <<Moved(s), Moved(r)>>}
Four == <<s[1], s[2], r[1], r[2]>>

DistLaws ==
  LET d == DistSq(s, r)
  IN /\ RLe(Zero, d)
     /\ \A o \in Orders : DistSq(o[1], o[2]) = d
     /\ d = DistSq(s, r) /\ RLe(d, Ends2(s, r))
     /\ \A i, j \in 0..4 : RLe(d, VNorm2(VSub(At(s, RDiv(RInt(i), "4")), At(r, RDiv(RInt(j), "4")))))

PredicateLaws ==
  /\ \A o \in Orders : ParallelX(o[1], o[2]) = ParallelX(s, r)
  /\ CollinearX(Four) => ParallelX(s, r) /\ CoplanarX(Four)
  /\ ParallelX(s, r) => CoplanarX(Four)
  /\ (Dim = 2) => CoplanarX(Four)
  /\ DistSq(s, r) = Zero => CoplanarX(Four)

OverlapLaws ==
  CollinearX(Four) =>
    LET o == OverlapX(s, r)
    IN /\ (o = NoSeg) = (DistSq(s, r) # Zero)
       /\ o # NoSeg => /\ \A i \in {1, 2} : DistPS2(o[i], s) = Zero /\ DistPS2(o[i], r) = Zero
                       /\ Set(OverlapX(r, s)) = Set(o) /\ Set(OverlapX(Rev(s), r)) = Set(o)
                       \* nothing of the common part is missing
                       /\ \A p \in Grid : (DistPS2(p, s) = Zero /\ DistPS2(p, r) = Zero) = (DistPS2(p, o) = Zero)

InterLaws ==
  LET x == InterX(s, r)
  IN /\ (x.k # "none") = (DistSq(s, r) = Zero)
     /\ x.k = "exact" => DistPS2(x.p, s) = Zero /\ DistPS2(x.p, r) = Zero /\ InterX(r, s).p = x.p
     /\ \A o \in Orders : InterX(o[1], o[2]).k = x.k

\* the three-valued predicates are decided on the grid and agree with the exact ones
TriLaws ==
  /\ ParallelTri(s, r) = (IF ParallelX(s, r) THEN "T" ELSE "F")
  /\ CollinearTri(Four) = (IF CollinearX(Four) THEN "T" ELSE "F")
  /\ CoplanarTri(Four) = (IF CoplanarX(Four) THEN "T" ELSE "F")
=============================================================================
