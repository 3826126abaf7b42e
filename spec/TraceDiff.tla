------------------------------ MODULE TraceDiff -----------------------------
(* Recorded lengths, derivatives, frames, curvature and torsion (C09 - C12). *)
EXTENDS TraceFn, Diff

Shapes(P, c, ss) ==     \* the shapes of per-point vector quantities
  F(P \o ": shape", \A i \in 1..Len(ss) : ss[i] = <<Size(c), c.nd>>)

\* relative closeness of accumulated lengths
NearRel(o, e) == RNear(o, e, RAdd(RMul("1/10000000000000", RAbs(e)), "0"))

LengthFails(c, v) ==
  LET ch == Chords(c.pts)
      cum == CumLengths(c.pts)
      m == Size(c)
  IN F("C09: chord lengths", Len(v.chord) = Len(ch) /\ \A i \in 1..Len(ch) : NearRel(v.chord[i], ch[i]))
     \union F("C09: arc length is the sum of the chords", NearRel(v.arc, VSum(ch)))
     \union F("C09: cumulative length", Len(v.cum) = m /\ \A i \in 1..m : NearRel(v.cum[i], cum[i]))
     \union F("C09: cumulative length starts at zero and does not decrease",
              m = 0 \/ (v.cum[1] = Zero /\ \A i \in 2..Len(v.cum) : RLe(v.cum[i - 1], v.cum[i])))
     \union F("C09: the parameter of a non-parametric curve is its cumulative length", c.par \/ v.t = v.cum)

Pts(as) == [i \in 1..Len(as) |-> as[i].v]

DerivFails(c, v) ==
  LET fr == Frame(c.pts, c.dt)
  IN F("C10: first derivative", AdmM(v.d1, fr.d1)) \union F("C10: second derivative", AdmM(v.d2, fr.d2))
     \union F("C10: third derivative", AdmM(v.d3, fr.d3))
     \union Shapes("C10", c, v.shapes)

\* the warning comes exactly when some vector vanishes
WarnOk(warned, zs) == IF "T" \in zs THEN warned ELSE "U" \in zs \/ ~warned

\* a reported frame vector: unit where it is well defined
UnitFails(name, os, as, src) ==
  F("C11: " \o name, AdmM(os, as))

Zs(as, u) == {Vanishes(LenA(as[i], u)) : i \in 1..Len(as)}

Ortho(a, b, ea, eb) == Bad(ea) \/ Bad(eb) \/ RNear(VDot(a, b), Zero, RMul("16", RAdd(ea.e, RAdd(eb.e, "1/1000000000000"))))

FrameFails(c, v) ==
  LET u == UnitOf(c.dt)
      fr == Frame(c.pts, c.dt)
      z1 == Zs(fr.d1, u)
      z2 == Zs(fr.nr, u)
      z3 == Zs(fr.bn, u)
      few == Size(c) \in {1, 2}      \* too few points for a gradient: warned anyway
  IN F("C11: the tangent is the first derivative", AdmM(v.tangent, fr.d1))
     \union F("C11: speed", AdmNs(v.speed, fr.sp))
     \union F("C11: normal", AdmM(v.normal, fr.nr))
     \union F("C11: binormal", AdmM(v.binormal, fr.bn))
     \union F("C11: first Frenet vector", AdmM(v.e1, fr.e1))
     \union F("C11: second Frenet vector", AdmM(v.e2, fr.e2))
     \union F("C11: third Frenet vector", AdmM(v.e3, fr.e3))
     \union F("C11: no NaN in frames of finite curves",
              \A m \in {v.tangent, v.normal, v.binormal, v.e1, v.e2, v.e3} :
                 \A i \in 1..Len(m) : VFin(m[i]))
     \union F("C11: warning when the tangent vanishes", few \/ WarnOk(v.w1, z1))
     \union F("C11: warning when the normal vanishes", few \/ WarnOk(v.w2, z1 \union z2))
     \union F("C11: warning when the binormal vanishes", few \/ WarnOk(v.w3, z1 \union z2 \union z3))
     \union F("C11: the frame is orthogonal",
              \A i \in 1..Size(c) :
                 ("F" = Vanishes(LenA(fr.d1[i], u)) /\ "F" = Vanishes(LenA(fr.nr[i], u)))
                   => Ortho(v.e1[i], v.e2[i], fr.e1[i], fr.e2[i]))
     \union Shapes("C11", c, v.shapes)

CurvFails(c, v) ==
  LET u == UnitOf(c.dt)
      fr == Frame(c.pts, c.dt)
  IN F("C12: curvature", AdmNs(v.k, CurvatureA(fr, c.nd, u)))
     \union F("C12: torsion", AdmNs(v.tau, TorsionA(fr, u)))

DiffFails(ev) ==
  LET P == SubSeq(ev.prop, 1, 3)
  IN IF ev.out.k # "val" THEN {P \o ": the library failed on a finite curve (" \o ev.op \o ")"}
     ELSE CASE ev.op = "lengths" -> LengthFails(ev.c, ev.out.v)
            [] ev.op = "deriv"   -> DerivFails(ev.c, ev.out.v)
            [] ev.op = "frame"   -> FrameFails(ev.c, ev.out.v)
            [] ev.op = "curv"    -> CurvFails(ev.c, ev.out.v)
=============================================================================
