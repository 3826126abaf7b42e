------------------------------ MODULE TraceHeap -----------------------------
(* Trace validation of histories of curve operations recorded from the real  *)
(* library.  A trace is one line of the input file: a sequence of events.    *)
(* `heap` is the value of every curve made so far, in the order of creation; *)
(* an event that makes a curve appends it.  After each event the driver      *)
(* re-reads live curves; they must still have the value they were made with. *)
EXTENDS Verdict, Json, IOUtils

CONSTANTS Prop            \* the property whose clauses are reported, or "ALL"

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l, heap
vars == <<tr, l, heap>>

Fails(ev, h) ==
  LET out == ev.out
      c == IF ev.id = 0 THEN Curve(2, <<>>, FALSE, <<>>, "float64") ELSE h[ev.id]
  IN
  CASE ev.op = "construct" ->
         CurveFails("C02", Construct([form |-> ev.form, shape |-> ev.shape, flat |-> ev.flat, dt |-> ev.dt, c |-> c],
                                     ev.opt), out)
         \union F("C02: an ignored argument is reported",
                  (out.k # "err" /\ ev.form = "curve" /\ (ev.opt.tdata.h \/ ev.opt.axis.h)) => ev.warned)
    [] ev.op = "badconstruct" -> ErrFails("C02", ToSet(ev.e), out)
    [] ev.op = "copy" -> CurveFails("C02", OkC(c), out)
    [] ev.op = "getint" ->
         LET e == GetPoint(c, ev.i)
         IN IF e.k = "err" THEN ErrFails("C03", e.e, out)
            ELSE IF out.k # "val" THEN {"C03: no point for a valid index"}
            ELSE F("C03: point coordinates", PointIs(c, e.v.p, out.v.p))
                 \union F("C03: point index", out.v.i = e.v.i)
                 \union F("C08: parameter of the point", c.par => out.v.t = c.t[e.v.i + 1])
    [] ev.op = "getcurve" -> CurveFails("C03", GetCurve(c, ev.x), out)
    [] ev.op = "badindex" -> ErrFails("C03", ToSet(ev.e), out)
    [] ev.op = "iter" ->
         IF out.k # "val" THEN {"C03: iteration fails"}
         ELSE F("C03: iteration order", Len(out.v.pts) = Size(c) /\ \A i \in 1..Size(c) : PointIs(c, c.pts[i], out.v.pts[i]))
              \union F("C03: reversed iteration", out.v.rev = Reverse(out.v.pts))
              \union F("C03: length", out.v.len = Size(c))
              \union F("C03: truth value", out.v.bool = (Size(c) > 0))
              \union F("C03: dimension flags", out.v.is2d = (c.nd = 2) /\ out.v.is3d = (c.nd = 3)
                                               /\ out.v.sp = (c.nd >= 3))
    [] ev.op = "subcurve" -> CurveFails("C03", OkC(SubCurve(c, ev.i, ev.j, ev.ep)), out)
    [] ev.op = "badsubcurve" -> ErrFails("C03", ToSet(ev.e), out)
    [] ev.op = "concat" -> CurveFails("C04", Concat(c, h[ev.id2]), out)
    [] ev.op = "reverse" -> CurveFails("C04", OkC(ReverseCurve(c)), out)
    [] ev.op = "insert" -> CurveFails("C04", InsertPts(c, ev.x, ev.o), out)
    [] ev.op = "append" -> CurveFails("C04", AppendPts(c, ev.o), out)
    [] ev.op = "delete" -> CurveFails("C04", DeletePts(c, ev.x), out)
    [] ev.op = "badedit" -> ErrFails("C04", ToSet(ev.e), out)
    [] ev.op = "insertdim" -> CurveFails("C05", InsertDim(c, ev.axis, ev.vals), out)
    [] ev.op = "appenddim" -> CurveFails("C05", InsertDim(c, c.nd, ev.vals), out)
    [] ev.op = "deletedim" -> CurveFails("C05", DeleteDim(c, ev.x), out)
    [] ev.op = "values" ->
         LET e == AxisValues(c, ev.axis)
         IN IF e.k = "err" THEN ErrFails("C05", e.e, out)
            ELSE ValFails("C05", "values along an axis", out.v = e.v, out)
    [] ev.op = "allvalues" ->
         ValFails("C05", "values along all axes", out.v = [a \in 1..c.nd |-> [i \in 1..Size(c) |-> c.pts[i][a]]], out)
    [] ev.op = "badaxis" -> ErrFails("C05", ToSet(ev.e), out)
    [] ev.op = "eq" ->
         LET e == EqCurve(c, h[ev.id2]) IN ValFails("C06", "equality of curves", TriOk(e, out.v.eq) /\ out.v.ne = ~out.v.eq, out)
    [] ev.op = "eqpoint" ->
         LET e == EqPoint(ev.p, ev.q) IN ValFails("C06", "equality of points", TriOk(e, out.v.eq) /\ out.v.ne = ~out.v.eq, out)
    [] ev.op = "haspoint" ->
         ValFails("C06", "a point is in a curve", TriOk(HasPoint(c, ev.p), out.v), out)
    [] ev.op = "hascurve" ->
         ValFails("C06", "a sub-curve is in a curve", TriOk(HasRun(c, h[ev.id2]), out.v), out)
    [] ev.op = "hasother" -> ValFails("C06", "other objects are not in a curve", out.v = FALSE, out)
    [] ev.op = "count" ->
         IF c.nd # Len(ev.p.v) THEN ErrFails("C06", {"ValueError"}, out)
         ELSE ValFails("C06", "number of equal points", CountOk(c, ev.p, out.v), out)
    [] ev.op = "index" ->
         IF c.nd # Len(ev.p.v) THEN ErrFails("C06", {"ValueError"}, out)
         ELSE IF out.k = "err"
           THEN F("C06: index of a point", "ValueError" \in ToSet(out.e) /\ IndexOk(c, ev.p, ev.a, ev.b, FALSE, 0))
           ELSE F("C06: index of a point", IndexOk(c, ev.p, ev.a, ev.b, TRUE, out.v))
    [] ev.op = "unique" -> CurveFails("C07", OkC(Unique(c)), out)
    [] ev.op = "drop" ->
         F("C07: the predicate is given the points", ev.seen = c.pts)
         \union (LET x == ev.x IN
                 IF x.f = "mask2"
                   THEN CurveFails("C07", DeletePts(c, [f |-> "mask", m |-> [i \in 1..Len(x.m) |-> \E j \in 1..Len(x.m[i]) : x.m[i][j]]]), out)
                   ELSE CurveFails("C07", DeletePts(c, x), out))
    [] ev.op = "baddrop" -> ErrFails("C07", ToSet(ev.e), out)
    [] ev.op = "nonsingular" ->
         IF ~NonsingularSure(c) THEN {} ELSE CurveFails("C07", OkC(Nonsingular(c)), out)
    [] ev.op = "t" -> ValFails("C08", "parameter vector", ParamOk(c, out.v), out)
    [] ev.op = "smooth" ->
         IF out.k # "curve" THEN {"C08: smoothing fails"}
         ELSE F("C08: a smoothed curve is not parametric", ~out.c.par)
    [] ev.op = "coorient" -> AnyFails("C14", CoOrient(c, ev.a1, ev.a2), out)
    [] ev.op = "repeat" ->      \* the same object read again: derived values and raw values as before
         F("C01: derived values changed", ev.before = ev.after)
    [] ev.op = "mkpoint" -> CurveFails("C02", OkC(Curve(Len(ev.pt.v), <<ev.pt.v>>, FALSE, <<>>, ev.pt.dt)), out)
    [] ev.op = "mkseg" -> CurveFails("C02", OkC(Curve(ev.nd, ev.pts, FALSE, <<>>, "any")), out)
    [] ev.op = "paramfree" ->   \* the same operation on a curve with and without its parameter vector
         ValFails("C08", "points depend on being parametric", out.v.a = out.v.b, out)
    [] ev.op \in {"nop", "read"} -> {}
    [] ev.op = "crash" -> {Prop \o ": the library failed outside of a checked call: " \o ev.what}

\* after the event every re-read curve has the value it was made with
LiveFails(ev, h) ==
  F("C01: an existing curve changed", \A i \in 1..Len(ev.live) : ev.live[i].c = h[ev.live[i].id])
  \union F("C01: an argument was changed", ev.argsok)

Wanted(x) == Prop = "ALL" \/ SubSeq(x, 1, 3) = SubSeq(Prop, 1, 3)

(* ------------------------------ behaviour ------------------------------- *)
Init == tr \in 1..Len(Traces) /\ l = 0 /\ heap = <<>>

Next ==
  /\ l < Len(Traces[tr])
  /\ LET ev == Traces[tr][l + 1]
         h2 == IF ev.nid > 0 THEN Append(heap, ev.out.c) ELSE heap
         bad == {x \in Fails(ev, heap) \union LiveFails(ev, h2) : Wanted(x)}
     IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", tr, l + 1, ev.op, bad>>))
        /\ heap' = h2
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars

\* every curve the library made is a curve
HeapWellFormed == \A i \in 1..Len(heap) : WellFormed(heap[i])
=============================================================================
