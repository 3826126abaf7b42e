-------------------------------- MODULE Plot --------------------------------
(* The plotting machine: axes with what is drawn on them, and curve plots, each *)
(* bound to axes.  One step is one curve plot: on new axes, on given axes, or  *)
(* chained to an earlier plot, whose axes it shares.                           *)
EXTENDS SkCurve

\* axes: d3, lines (in drawing order), colls (collections in drawing order), bars (colour bar labels)
NewAxes(d3) == [d3 |-> d3, lines |-> <<>>, colls |-> <<>>, bars |-> <<>>]

\* a planar curve lies in the plane z = 0 of 3-d axes
Lift(pts, nd, d3) == IF d3 /\ nd = 2 THEN [i \in 1..Len(pts) |-> pts[i] \o <<Zero>>] ELSE pts

Segs(pts) == [i \in 1..(Len(pts) - 1) |-> <<pts[i], pts[i + 1]>>]

RECURSIVE MinTo(_, _)
MinTo(v, n) == IF n = 1 THEN v[1] ELSE RMin(MinTo(v, n - 1), v[n])
RECURSIVE MaxTo(_, _)
MaxTo(v, n) == IF n = 1 THEN v[1] ELSE RMax(MaxTo(v, n - 1), v[n])
LeastOf(v) == MinTo(v, Len(v))
GreatestOf(v) == MaxTo(v, Len(v))

\* the place of a value in a table of 256 colours
ColourOf(v, lo, hi) == IF lo = hi THEN Zero
                       ELSE RMin("255", RFloor(RMul("256", RDiv(RSub(v, lo), RSub(hi, lo)))))

\* what plotting the curve c with options o draws on axes of 2 or 3 dimensions
\* o: param ("" for none), vals (the quantity at the points), marker, cmap, normals, dirs (the unit normals), style
LinesOf(c, o, d3) == IF o.param = "" THEN <<[pts |-> Lift(c.pts, c.nd, d3), style |-> o.style]>> ELSE <<>>
CollsOf(c, o, d3) ==
  (IF o.param = "" THEN <<>>
   ELSE <<[k |-> "segs", segs |-> Segs(Lift(c.pts, c.nd, d3)), vals |-> o.vals,
           lim |-> <<LeastOf(o.vals), GreatestOf(o.vals)>>, cmap |-> o.cmap, style |-> o.style]>>)
  \o (IF o.param = "" \/ ~o.marker THEN <<>>
      ELSE <<[k |-> "marks", pts |-> Lift(c.pts, c.nd, d3),
              cols |-> [i \in 1..Len(o.vals) |-> <<ColourOf(o.vals[i], LeastOf(o.vals), GreatestOf(o.vals))>>]]>>)
  \o (IF o.normals THEN <<[k |-> "arrows", pts |-> c.pts, dirs |-> o.dirs]>> ELSE <<>>)
BarsOf(o) == IF o.param = "" THEN <<>> ELSE <<o.param>>

PlotErr(c, o, target, d3) ==
  IF c.nd > 3 THEN {"ValueError"}
  ELSE IF target.k # "new" /\ c.nd = 3 /\ ~d3 THEN {"TypeError"}
  ELSE IF o.normals /\ c.nd = 3 THEN {"NotImplementedError"}
  ELSE {}

Draw(a, c, o) == [a EXCEPT !.lines = @ \o LinesOf(c, o, a.d3), !.colls = @ \o CollsOf(c, o, a.d3), !.bars = @ \o BarsOf(o)]

\* the axes a plot goes to: an index into axs, one more than its length for new axes
TargetOf(target, axs, plots) ==
  CASE target.k = "new" -> Len(axs) + 1
    [] target.k = "given" -> target.i
    [] target.k = "chain" -> plots[target.i]
=============================================================================
