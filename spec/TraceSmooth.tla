----------------------------- MODULE TraceSmooth -----------------------------
(* Recorded smoothing calls (C27).                                             *)
EXTENDS TraceFn, Smooth

\* the result for one coordinate
SmoothOf(ev, y) ==
  IF ev.method = "window"
    THEN WindowSmooth(y, IF ev.win.k = "values" THEN ev.win.v ELSE WindowOf(ev.win, ev.size), ev.mode, ev.cval)
  ELSE Savgol(y, ev.size, ev.k, ev.d, ev.delta, ev.mode, ev.cval)

SmErr(ev) ==
  LET rejected == {"ValueError", "TypeError", "SmoothingError"}
  IN IF ev.method \notin {"window", "savgol"} THEN {"NameError"}
     ELSE IF ev.unknown THEN {"TypeError"}
     ELSE IF ev.method = "window"
       THEN IF ev.win.k = "fails" THEN {"ValueError"}
            ELSE IF ev.win.k = "name" /\ ev.win.name \notin WindowNames THEN {"ValueError"}
            ELSE IF ev.mode \notin BoundaryModes \/ ev.size < 1 THEN rejected ELSE {}
     ELSE IF SavgolErr(Size(ev.c), ev.size, ev.k, ev.mode) THEN rejected ELSE {}

\* rounding: the fit of a window is well conditioned, the edge polynomials less so
SmTol(ev, y) ==
  LET m == RMax(VMaxAbs(y), RAbs(ev.cval))
  IN IF ev.method = "window"
       THEN LET w == IF ev.win.k = "values" THEN ev.win.v ELSE WindowOf(ev.win, ev.size)
                s == RAbs(VSum(w))
                a == VSum([i \in 1..Len(w) |-> RAbs(w[i])])
            IN RMul("1/1000000000000", RMul(m, RDiv(a, s)))
     ELSE RMul("1/100000000", RDiv(RMul(m, RInt(Falling(ev.k, IF ev.d > ev.k THEN 0 ELSE ev.d))), PowR(ev.delta, ev.d)))

SmoothFails(ev) ==
  LET c == ev.c
      out == ev.out
      e == SmErr(ev)
  IN F("C27: smoothing changed the curve", ev.same)
     \union
     IF e # {} THEN F("C27: an unknown method or bad parameters should be rejected", IsErr(out, e))
     ELSE IF out.k # "curve" THEN {"C27: no result"}
     ELSE LET o == out.c
              shape == Len(o.pts) = Size(c) /\ o.nd = c.nd
              col(j) == [i \in 1..Size(c) |-> c.pts[i][j]]
              got(j) == [i \in 1..Size(c) |-> o.pts[i][j]]
          IN F("C27: number of points and dimension", shape)
             \union F("C27: the result is of type float64", o.dt = "float64")
             \union F("C27: the result is not parametric", ~o.par)
             \union F("C27: filtered values",
                      ~shape \/ \A j \in 1..c.nd : VNear(got(j), SmoothOf(ev, col(j)), SmTol(ev, col(j))))
=============================================================================
