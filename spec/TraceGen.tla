------------------------------ MODULE TraceGen ------------------------------
(* Recorded generator calls (C29).                                            *)
EXTENDS TraceFn, Gen

GenFails(ev) ==
  LET d == GenDefaults(ev.name)
      p == TLCEval([k \in DOMAIN d |-> IF k \in DOMAIN ev.par THEN ev.par[k] ELSE d[k]])
      n == p.p_count
      out == ev.out
  IN IF n < 0 THEN F("C29: a negative number of points should be rejected", IsErr(out, {"ValueError"}))
     ELSE IF out.k # "curve" THEN {"C29: no curve"}
     ELSE LET o == out.c
              dim == IF ev.name \in {"helix", "irregular_helix"} THEN 3 ELSE 2
              t == Linspace(p.t_start, p.t_stop, n)
              ttol == RMul("1/100000000000000", RAdd(RAbs(p.t_start), RAbs(p.t_stop)))
              shape == Len(o.pts) = n /\ (n = 0 \/ o.nd = dim) /\ Len(o.t) = n
          IN F("C29: the number of points and dimension", shape)
             \union F("C29: the curve is parametric", o.par)
             \union F("C29: the type of the coordinates", o.dt = "float64")
             \union F("C29: the parameter is equally spaced over the range", ~shape \/ n = 0 \/ VNear(o.t, t, ttol))
             \union F("C29: points satisfy the equations",
                      ~shape \/ \A i \in 1..n :
                         VNear(o.pts[i], GenPoint(ev.name, p, o.t[i], i),
                               RMul("1/10000000000000", GenScale(ev.name, p, o.t[i]))))
=============================================================================
