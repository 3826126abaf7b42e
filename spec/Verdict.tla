------------------------------ MODULE Verdict -------------------------------
(* Comparing an observed outcome with the specified one.  A verdict is the set   *)
(* of the names of the violated clauses; a name starts with its property.        *)
EXTENDS SkCurve

(* ------------------------------- verdicts ------------------------------- *)
F(name, ok) == IF ok THEN {} ELSE {name}

IsErr(out, S) == out.k = "err" /\ \E e \in S : e \in ToSet(out.e)

ErrFails(P, S, out) == F(P \o ": should be rejected with a documented error", IsErr(out, S))

CurveFails(P, exp, out) ==
  IF exp.k = "err" THEN ErrFails(P, exp.e, out)
  ELSE IF out.k # "curve" THEN {P \o ": no result"}
  ELSE F(P \o ": points", out.c.pts = exp.c.pts)
       \union F(P \o ": dimension", out.c.nd = exp.c.nd)
       \union F(P \o ": dtype", out.c.dt = exp.c.dt)
       \union F("C08: parametrization", out.c.par = exp.c.par /\ (out.c.par => out.c.t = exp.c.t))

\* one of a set of results
AnyFails(P, S, out) == IF \E e \in S : CurveFails(P, e, out) = {} THEN {}
                       ELSE CurveFails(P, CHOOSE e \in S : TRUE, out)

ValFails(P, name, ok, out) == IF out.k # "val" THEN {P \o ": no value (" \o name \o ")"} ELSE F(P \o ": " \o name, ok)

(* the parameter vector of a non-parametric curve: the cumulative arc length *)
RECURSIVE CumFrom(_, _, _)
CumFrom(pts, i, s) == IF i > Len(pts) THEN <<>>
                      ELSE LET s2 == RAdd(s, VNorm(VSub(pts[i], pts[i - 1]))) IN <<s2>> \o CumFrom(pts, i + 1, s2)
CumLen(pts) == IF pts = <<>> THEN <<>> ELSE <<Zero>> \o CumFrom(pts, 2, Zero)
AllFin(pts) == \A i \in 1..Len(pts) : VFin(pts[i])
RelTol(v, k) == RMul(k, VMaxAbs(v))

ParamOk(c, t) ==
  IF c.par THEN t = c.t
  ELSE IF ~AllFin(c.pts) THEN Len(t) = Size(c)
  ELSE LET e == CumLen(c.pts)
       IN VNear(t, e, RAdd(RelTol(e, "1/1000000000"), "1/100000000000000000000"))

=============================================================================
