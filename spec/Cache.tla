-------------------------------- MODULE Cache --------------------------------
(* The reading machine: curves, and point and segment views of them, whose       *)
(* quantities are computed when first read and kept.  A view has no quantities   *)
(* of its own.                                                                 *)
EXTENDS SkCurve

\* quantities with one value per point
PointQ == {"data", "t", "cumarclen", "firstderiv", "secondderiv", "thirdderiv", "speed", "tangent", "normal", "binormal",
           "curvature", "torsion", "frenet1", "frenet2", "frenet3"}
\* the quantities that computing a quantity of a curve computes as well
Needs(q) == CASE q = "speed" -> {"firstderiv"}
              [] q \in {"tangent", "frenet1"} -> {"firstderiv", "frenet1"}
              [] q \in {"normal", "frenet2"} -> {"firstderiv", "secondderiv", "frenet1", "frenet2"}
              [] q \in {"binormal", "frenet3"} -> {"firstderiv", "secondderiv", "frenet1", "frenet2", "frenet3"}
              [] q = "curvature" -> {"firstderiv", "secondderiv"}
              [] q = "torsion" -> {"firstderiv", "secondderiv", "thirdderiv"}
              [] q = "cumarclen" -> {"chordlen"}
              [] OTHER -> {}

(* A handle is [k |-> "curve" | "point" | "segment", c |-> number of its curve object, i |-> its index].         *)
(* A curve object is [ref |-> number of its table, cached |-> quantities computed].                              *)
CurveH(c) == [k |-> "curve", c |-> c, i |-> 0]
PointH(c, i) == [k |-> "point", c |-> c, i |-> i]
SegH(c, i) == [k |-> "segment", c |-> c, i |-> i]

\* what reading computes: on the curve of the handle, whichever way it is read
Computes(h, q) == {q} \union Needs(q)

\* the value read: from the table of the quantity, at the index of a view
ReadOf(h, q, table) ==
  IF h.k = "curve" THEN table[q]
  ELSE IF h.k = "segment" THEN <<table[q][h.i + 1]>>                      \* chord length
  ELSE <<table[q][h.i + 1]>>
=============================================================================
