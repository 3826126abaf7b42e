------------------------------ MODULE CurveHeap -----------------------------
(* The curve machine: a heap of immutable curves and the operations that make   *)
(* new ones from old ones.  An event is a record with the operation, the curves  *)
(* it is applied to (indices of the heap) and its arguments, in the same form    *)
(* as the events that TraceHeap reads.                                           *)
EXTENDS Verdict

(* ------------------------- what an event may yield ------------------------- *)
\* the set of results (curve or error) that the event may have; a reading event has none
Yields(ev, h) ==
  LET c == IF ev.id = 0 THEN Curve(2, <<>>, FALSE, <<>>, "float64") ELSE h[ev.id]
  IN CASE ev.op = "construct" ->
            {Construct([form |-> ev.form, shape |-> ev.shape, flat |-> ev.flat, dt |-> ev.dt, c |-> c], ev.opt)}
       [] ev.op = "copy" -> {OkC(c)}
       [] ev.op = "getcurve" -> {GetCurve(c, ev.x)}
       [] ev.op = "subcurve" -> {OkC(SubCurve(c, ev.i, ev.j, ev.ep))}
       [] ev.op = "concat" -> {Concat(c, h[ev.id2])}
       [] ev.op = "reverse" -> {OkC(ReverseCurve(c))}
       [] ev.op = "insert" -> {InsertPts(c, ev.x, ev.o)}
       [] ev.op = "append" -> {AppendPts(c, ev.o)}
       [] ev.op = "delete" -> {DeletePts(c, ev.x)}
       [] ev.op = "drop" -> {DeletePts(c, ev.x)}
       [] ev.op = "insertdim" -> {InsertDim(c, ev.axis, ev.vals)}
       [] ev.op = "appenddim" -> {InsertDim(c, c.nd, ev.vals)}
       [] ev.op = "deletedim" -> {DeleteDim(c, ev.x)}
       [] ev.op = "unique" -> {OkC(Unique(c))}
       [] ev.op = "nonsingular" -> {OkC(Nonsingular(c))}
       [] ev.op = "coorient" -> CoOrient(c, ev.a1, ev.a2)
       [] OTHER -> {}

Reads == {"getint", "values", "eq", "haspoint", "hascurve", "count", "index", "t", "repeat", "read"}

\* the heaps after an event
After(ev, h) ==
  IF ev.op \in Reads THEN {h}
  ELSE {IF r.k = "curve" THEN Append(h, r.c) ELSE h : r \in Yields(ev, h)}

(* --------------------- laws every curve value satisfies -------------------- *)
All == [f |-> "slice", a |-> NoInt, b |-> NoInt, s |-> NoInt]
Sl(a, b) == [f |-> "slice", a |-> AnInt(a), b |-> AnInt(b), s |-> NoInt]
Back == [f |-> "slice", a |-> NoInt, b |-> NoInt, s |-> AnInt(-1)]
AsOp(c) == [nd |-> c.nd, pts |-> c.pts, dt |-> c.dt]
Plain(c) == Curve(c.nd, c.pts, FALSE, <<>>, c.dt)

\* C03: slices
SliceLaws(c) ==
  LET n == Size(c)
  IN /\ GetCurve(c, All).c = c
     /\ GetCurve(c, Back).c = ReverseCurve(c)
     /\ \A k \in 0..n :
          LET u == GetCurve(c, Sl(0, k)).c
              v == GetCurve(c, Sl(k, n)).c
          IN Size(u) = k /\ Size(v) = n - k /\ Concat(u, v).c = c
     /\ \A i \in 0..(n - 1) : GetPoint(c, i) = GetPoint(c, i - n)
     /\ n > 0 => SubCurve(c, 0, -1, TRUE) = c
     /\ n > 0 => SubCurve(c, 0, n - 1, FALSE) = GetCurve(c, Sl(0, n - 1)).c

\* C04: edits
EditLaws(c) ==
  LET n == Size(c)
      o == AsOp(c)
  IN /\ ReverseCurve(ReverseCurve(c)) = c
     /\ AppendPts(c, o).c = Plain(Concat(c, c).c)
     /\ \A p \in 0..n :
          LET r == InsertPts(c, [f |-> "int", i |-> p], o).c
          IN /\ Size(r) = 2 * n
             /\ DeletePts(r, Sl(p, p + n)).c = Plain(c)
     /\ \A p \in 1..n : InsertPts(c, [f |-> "int", i |-> p - 1 - n], o) = InsertPts(c, [f |-> "int", i |-> p - 1], o)
     /\ \A i \in 0..(n - 1) :
          LET d == DeletePts(c, [f |-> "int", i |-> i])
          IN /\ Size(d.c) = n - 1
             /\ d = DeletePts(c, [f |-> "int", i |-> i - n])
             /\ d = DeletePts(c, [f |-> "list", l |-> <<i, i - n>>])
     /\ ReverseCurve(Concat(c, c).c) = Concat(ReverseCurve(c), ReverseCurve(c)).c
     /\ InsertPts(c, [f |-> "int", i |-> n + 1], o).k = "err"
     /\ InsertPts(c, [f |-> "int", i |-> -n - 1], o).k = "err"
     /\ DeletePts(c, [f |-> "int", i |-> n]).k = "err"

\* C05: dimensions
NoVals == [h |-> FALSE, v |-> <<>>]
DimLaws(c) ==
  /\ \A a \in 0..c.nd :
       LET r == InsertDim(c, a, NoVals).c
       IN /\ DeleteDim(r, [f |-> "int", i |-> a]).c = Plain(c)
          /\ AxisValues(r, a).v = [i \in 1..Size(c) |-> Zero]
          /\ \A b \in 0..(c.nd - 1) : AxisValues(r, IF b < a THEN b ELSE b + 1) = AxisValues(c, b)
  /\ \A a \in 0..(c.nd - 1) : AxisValues(c, a) = AxisValues(c, a - c.nd)
  /\ \A a \in 1..c.nd : LET v == [h |-> TRUE, v |-> AxisValues(c, a - 1).v]
                        IN AxisValues(InsertDim(c, c.nd, v).c, -1) = AxisValues(c, a - 1)
  /\ c.nd = 2 => DeleteDim(c, [f |-> "int", i |-> 0]).k = "err"

\* C06: equality and search
EqLaws(c) ==
  LET fin == AllFin(c.pts)
      P(i) == [v |-> c.pts[i], dt |-> c.dt]
  IN /\ fin => EqCurve(c, c) = "T"
     /\ ~fin => EqCurve(c, c) # "T" \/ \A i \in 1..Size(c) : ~HasNan(c.pts[i])
     /\ fin => \A i \in 1..Size(c) :
          /\ HasPoint(c, P(i)) = "T"
          /\ ~CountOk(c, P(i), 0)
          /\ IndexOk(c, P(i), NoInt, NoInt, TRUE, CHOOSE k \in 0..(i - 1) : EqPt(c.pts[k + 1], c.pts[i], Exact(c, c)) # "F"
                                       /\ \A m \in 0..(k - 1) : EqPt(c.pts[m + 1], c.pts[i], Exact(c, c)) = "F")
     /\ fin => \A i, j \in 0..Size(c) : i <= j => HasRun(c, GetCurve(c, Sl(i, j)).c) = "T"

\* C07: filters
FilterLaws(c) ==
  LET u == Unique(c)
      s == Nonsingular(c)
  IN /\ Unique(u) = u
     /\ Unique(Concat(c, c).c).pts = IF \E i \in 1..Size(c) : HasNan(c.pts[i]) THEN Unique(Concat(c, c).c).pts ELSE u.pts
     /\ NonsingularSure(c) => Nonsingular(s) = s
     /\ AllFin(s.pts)
     /\ Size(u) <= Size(c) /\ Size(s) <= Size(c)
     /\ (\E i \in 1..Size(c) : VFin(c.pts[i])) => Size(s) > 0
     /\ \A i \in 1..Size(c) : \E j \in 1..Size(u) : u.pts[j] = c.pts[i]

\* C08: the parameter goes with its point (when all points differ)
Attached(c) ==
  c.par => \A r \in {GetCurve(c, Back).c, Unique(c), Nonsingular(c), ReverseCurve(c),
                     DeletePts(c, Sl(0, 1)).c} \union {e.c : e \in CoOrient(c, 0, 1)} :
             /\ r.par
             /\ \A i \in 1..Size(r) : \E j \in 1..Size(c) : c.pts[j] = r.pts[i] /\ c.t[j] = r.t[i]

\* C14: co-orientation returns the curve or its reversal, and is stable
OrientLaws(c) ==
  LET S == CoOrient(c, 0, 1)
  IN /\ S \subseteq {OkC(c), OkC(ReverseCurve(c))}
     /\ S # {}
     /\ \A e \in S :
          \/ Cardinality(CoOrient(e.c, 0, 1)) > 1
          \/ CoOrient(e.c, 0, 1) = {OkC(e.c)}
          \/ Size(c) > 1 /\ Cross2(c.pts[1], c.pts[Size(c)], 1, 2) = Zero

Laws(c) == /\ WellFormed(c) /\ SliceLaws(c) /\ EditLaws(c) /\ DimLaws(c) /\ EqLaws(c) /\ FilterLaws(c)
           /\ Attached(c) /\ OrientLaws(c)
=============================================================================
