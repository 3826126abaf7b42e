------------------------------- MODULE DiffMC -------------------------------
(* Every curve of up to N points on a small lattice: the laws of lengths,        *)
(* derivatives, frames, curvature and torsion, and the curve as a behaviour.     *)
EXTENDS Diff, Json, SequencesExt

CONSTANTS N2, S2, N3, S3        \* plane curves of up to N2 points in 0..S2, spatial ones of up to N3 points in 0..S3

VARIABLES c                     \* [nd, pts], grown point by point
vars == <<c>>

Co(S) == {ToString(i) : i \in 0..S}
Init == \E nd \in {2, 3} : c = [nd |-> nd, pts |-> <<>>]
Next == /\ Len(c.pts) < (IF c.nd = 2 THEN N2 ELSE N3)
        /\ \E p \in [1..c.nd -> Co(IF c.nd = 2 THEN S2 ELSE S3)] : c' = [c EXCEPT !.pts = Append(@, p)]
Spec == Init /\ [][Next]_vars

Emit == PrintT("BEH " \o ToJson(c))

P == c.pts
M == Len(c.pts)
Rev(s) == TLCEval(Reverse(s))
Scaled(k) == TLCEval([i \in 1..M |-> VScale(k, P[i])])
Moved == TLCEval([i \in 1..M |-> [j \in 1..c.nd |-> RAdd(P[i][j], "3")]])
Mirrored == TLCEval([i \in 1..M |-> [j \in 1..c.nd |-> P[i][IF j = 1 THEN 2 ELSE IF j = 2 THEN 1 ELSE j]]])
Vs(as) == TLCEval([i \in 1..Len(as) |-> as[i].v])

LengthLaws ==
  LET ch == Chords(P)
      cum == CumLengths(P)
  IN /\ Rev(ch) = Chords(Rev(P))
     /\ ch = Chords(Moved)
     /\ M > 0 => cum[1] = Zero /\ RNear(cum[M], ArcLen(P), "1/1000000000000000000000000000000")
     /\ \A i \in 2..M : RLe(cum[i - 1], cum[i])
     /\ M > 1 => RLe(Chord(P[1], P[M]), RAdd(ArcLen(P), "1/1000000000000000000000000000000"))
     /\ \A k \in 1..M : RNear(RAdd(ArcLen(SubSeq(P, 1, k)), ArcLen(SubSeq(P, k, M))), ArcLen(P),
                              "1/1000000000000000000000000000000")

DerivLaws ==
  M > 0 =>
    LET d == FD(P)
        d2 == FD(d)
        d3 == FD(d2)
        neg(s) == TLCEval([i \in 1..Len(s) |-> VNeg(s[i])])
    IN /\ Len(d) = M
       /\ FD(Rev(P)) = neg(Rev(d))
       /\ FD(FD(Rev(P))) = Rev(d2)
       /\ FD(Moved) = d
       /\ FD(Scaled("5")) = TLCEval([i \in 1..M |-> VScale("5", d[i])])
       \* linear in the curve
       /\ LET q == Rev(P) IN FD([i \in 1..M |-> VAdd(P[i], q[i])]) = [i \in 1..M |-> VAdd(d[i], FD(q)[i])]
       \* exact for curves that are quadratic in the index
       /\ M = 3 => LET k == VAdd(VSub(P[3], VScale("2", P[2])), P[1])
                   IN /\ \A i \in 1..3 : d2[i] = k /\ VIsZero(d3[i])
                      /\ \A i \in 1..2 : P[i + 1] = VAdd(P[i], VAdd(d[i], VScale("1/2", k)))

Tiny == "1/1000000000"
FrameLaws ==
  LET u == U64
      f == Frame(P, "float64")
      g == Frame(Rev(P), "float64")
      big == Frame(Scaled("4"), "float64")
      z1(i) == Vanishes(LenA(f.d1[i], u)) = "F"
      z2(i) == z1(i) /\ Vanishes(LenA(f.nr[i], u)) = "F"
      z3(i) == z2(i) /\ Vanishes(LenA(f.bn[i], u)) = "F"
  IN \A i \in 1..M :
       /\ z1(i) => RNear(VNorm(f.e1[i].v), One, Tiny) /\ VNear(f.e1[i].v, VNeg(g.e1[M + 1 - i].v), Tiny)
                   /\ VNear(f.e1[i].v, big.e1[i].v, Tiny)
       /\ z2(i) => RNear(VNorm(f.e2[i].v), One, Tiny) /\ RNear(VDot(f.e1[i].v, f.e2[i].v), Zero, Tiny)
                   /\ VNear(f.e2[i].v, g.e2[M + 1 - i].v, Tiny)
       /\ z3(i) => RNear(VNorm(f.e3[i].v), One, Tiny) /\ RNear(VDot(f.e1[i].v, f.e3[i].v), Zero, Tiny)
                   /\ RNear(VDot(f.e2[i].v, f.e3[i].v), Zero, Tiny)
       \* in the plane the binormal vanishes
       /\ (c.nd = 2 /\ z2(i)) => RNear(VNorm(f.bn[i].v), Zero, Tiny)

NearA(a, b) == Bad(a) \/ Bad(b) \/ RNear(a.v, b.v, RMul(Tiny, RAdd(One, RAbs(a.v))))
CurvLaws ==
  LET u == U64
      f == Frame(P, "float64")
      k == TLCEval(CurvatureA(f, c.nd, u))
      q == TLCEval(TorsionA(f, u))
      kr == TLCEval(CurvatureA(Frame(Rev(P), "float64"), c.nd, u))
      ks == TLCEval(CurvatureA(Frame(Scaled("4"), "float64"), c.nd, u))
      km == TLCEval(CurvatureA(Frame(Mirrored, "float64"), c.nd, u))
      qs == TLCEval(TorsionA(Frame(Scaled("4"), "float64"), u))
      flip(a) == IF c.nd = 2 THEN AV(RNeg(a.v), a.e) ELSE a
  IN \A i \in 1..M :
       /\ NearA(k[i], AV(RMul("4", ks[i].v), ks[i].e)) /\ NearA(q[i], AV(RMul("4", qs[i].v), qs[i].e))
       /\ NearA(k[i], flip(kr[M + 1 - i]))
       /\ NearA(k[i], flip(km[i]))
       \* a plane curve has no torsion, where its frame is well defined
       /\ (c.nd = 2 /\ Vanishes(LenA(f.d1[i], u)) = "F" /\ Vanishes(LenA(f.nr[i], u)) = "F")
            => NearA(q[i], AV(Zero, Zero))

Laws == LengthLaws /\ DerivLaws /\ FrameLaws /\ CurvLaws
=============================================================================
