----------------------------- MODULE TraceInterp -----------------------------
(* Recorded interpolation grids and interpolated curves (C24 - C26).           *)
EXTENDS TraceFn, Interp

(* ---------------------------------- C24 ---------------------------------- *)
GridTol(v, t) == RMul("1/10000000000000", RAdd(RAdd(VMaxAbs(v), VMaxAbs(t)), Zero))

GridFails(ev) ==
  LET e == GridOf(ev.g, ev.c, ev.t)
      out == ev.out
  IN IF e.k = "err" THEN ErrFails("C24", e.e, out)
     ELSE IF e.k = "free" THEN {}
     ELSE IF out.k # "val" THEN {"C24: no grid"}
     ELSE F("C24: grid values",
            \E v \in e.g : VNear(out.v, v, GridTol(v, ev.t)))
          \union F("C24: the number of grid points", \E v \in e.g : Len(v) = Len(out.v))
          \* the curve's own range is met exactly
          \union F("C24: the grid begins and ends exactly at the ends of the curve",
                   ev.g.t \notin {"uniform", "speed", "int"} \/ Len(out.v) < 2
                     \/ (out.v[1] = ev.t[1] /\ out.v[Len(out.v)] = ev.t[Len(ev.t)]))

(* ----------------------------- C25 and C26 ------------------------------- *)
\* an observed coordinate agrees with a value and its bound, after the conversion to the type of the curve
NumAgrees(o, a, dt) ==
  IF a.e = "inf" THEN TRUE
  ELSE IF ~RIsFin(a.v) THEN IsIntType(dt) \/ o = a.v
  ELSE IF IsIntType(dt) THEN RFloor(o) = o /\ RLe(RCast(RSub(a.v, a.e), dt), o) /\ RLe(o, RCast(RAdd(a.v, a.e), dt))
  ELSE RNear(o, a.v, RAdd(a.e, IF dt = "float32" THEN RMul("1/8000000", RAbs(a.v)) ELSE Zero))

(* the residual of a smoothing spline at the curve's own parameter values *)
SmoothResidOk(ev, pts, v) ==
  LET c == ev.c
      p == ev.par
      n == Size(c)
      w == IF p.w.h THEN p.w.v ELSE [i \in 1..n |-> One]
  IN v # ev.t \/ \A j \in 1..c.nd :
       RLe(VSum([i \in 1..n |-> RSqr(RMul(w[i], RSub(pts[i][j], c.pts[i][j])))]), RMul("101/100", p.smooth))

(* When both the grid and the parameters are bad, which one is reported is not fixed. *)
GridErrs(ev) ==
  LET gr == GridOf(ev.g, ev.c, ev.t)
  IN IF gr.k = "err" THEN gr.e
     ELSE IF gr.k = "free" THEN {}
     ELSE (IF \A v \in gr.g : Increasing(v) THEN {} ELSE {"ValueError"})
          \union (IF Rule(ev) # "raise" \/ \A v \in gr.g : \A i \in 1..Len(v) : Inside(ev.t, v[i])
                   THEN {} ELSE {"InterpolationError"})

InterpFails(ev) ==
  LET c == ev.c
      t == ev.t
      out == ev.out
      perr == ParErr(ev)
  IN IF perr # {}
       THEN F("C25: an unknown method or bad parameters should be rejected",
              IsErr(out, perr \union GridErrs(ev)))
     ELSE LET gr == GridOf(ev.g, c, t)
          IN IF gr.k = "free" THEN {}
             ELSE IF gr.k = "err" THEN F("C25: the grid should be rejected", IsErr(out, gr.e))
             ELSE LET S == {v \in gr.g : TRUE}
                      bad == {v \in S : ~Increasing(v)}
                      outside == {v \in S : \E i \in 1..Len(v) : ~Inside(t, v[i])}
                  IN IF bad = S THEN F("C25: a grid that is not strictly increasing should be rejected", IsErr(out, {"ValueError"}))
                     ELSE IF outside = S /\ Rule(ev) = "raise"
                       THEN F("C26: values outside of the curve should be rejected", IsErr(out, {"InterpolationError"}))
                     ELSE IF out.k # "curve" THEN {"C25: no result"}
                     ELSE LET o == out.c
                              fit == {v \in S : Len(v) = Len(o.pts)}
                          IN IF fit = {} THEN {"C25: one point per grid value"}
                             ELSE LET v == CHOOSE v \in fit : TRUE
                                      tab == Table(ev, v)
                                  IN F("C25: dimension", o.nd = c.nd)
                                     \union F("C25: dtype", o.dt = c.dt)
                                     \union F("C25: the result is parametric exactly when the curve is",
                                              o.par = c.par /\ (o.par => VNear(o.t, v, GridTol(v, t))))
                                     \union F("C25: the parameter of the result is the grid",
                                              ~o.par \/ ev.g.t # "values" \/ o.t = v)
                                     \union F("C25: warning when the grid does not cover the curve", ev.warned = ~Covers(v, t))
                                     \union F("C25: passes through the nodes",
                                              ~Passes(ev) \/ \A i \in 1..Len(v) : \A k \in 1..Len(t) :
                                                 (v[i] = t[k] /\ (Rule(ev) # "period" \/ k < Len(t))) => \A j \in 1..c.nd :
                                                    NumAgrees(o.pts[i][j], SV(c.pts[k][j], tab[i][j].e), c.dt))
                                     \union F("C26: value between the nodes",
                                              \A i \in 1..Len(v) : Inside(t, v[i]) =>
                                                 \A j \in 1..c.nd : NumAgrees(o.pts[i][j], tab[i][j], c.dt))
                                     \union F("C26: extrapolated value",
                                              \A i \in 1..Len(v) : ~Inside(t, v[i]) =>
                                                 \A j \in 1..c.nd : NumAgrees(o.pts[i][j], tab[i][j], c.dt))
                                     \union F("C26: smoothing factor",
                                              ev.method # "spline" \/ ev.par.smooth = Zero \/ SmoothResidOk(ev, o.pts, v))
                                     \union F("C25: the parameter of a curve that is not parametric is its cumulative length",
                                              c.par \/ ParamOk(c, t))

TrInterpFails(ev) ==
  CASE ev.op = "grid" -> GridFails(ev)
    [] ev.op = "interp" -> InterpFails(ev)
=============================================================================
