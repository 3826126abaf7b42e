------------------------------ MODULE SkCurve -------------------------------
(* The curve value and the operations that build new curves from old ones.  *)
(*                                                                          *)
(* A curve is a record                                                      *)
(*   [nd  |-> dimension, pts |-> sequence of points (sequences of numbers), *)
(*    par |-> is it parametric, t |-> its parameter vector (<<>> if not),   *)
(*    dt  |-> dtype]                                                        *)
(* An operation yields a result: a curve, an error (one of a set of         *)
(* exception classes) or a plain value.                                     *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC

Curve(nd, pts, par, t, dt) == [nd |-> nd, pts |-> TLCEval(pts), par |-> par, t |-> TLCEval(t), dt |-> dt]
Size(c) == Len(c.pts)

OkC(c)  == [k |-> "curve", c |-> c]
Err(S)  == [k |-> "err", e |-> S]
Val(v)  == [k |-> "val", v |-> v]

WellFormed(c) ==
  /\ c.nd >= 2
  /\ \A i \in 1..Len(c.pts) : Len(c.pts[i]) = c.nd
  /\ IF c.par THEN Len(c.t) = Len(c.pts) ELSE c.t = <<>>

(* ------------------------------ dtypes ---------------------------------- *)
SignedTypes == {"int8", "int16", "int32", "int64"}
UnsignedTypes == {"uint8", "uint16", "uint32", "uint64"}
IntTypes == SignedTypes \union UnsignedTypes
IsIntType(dt) == dt \in IntTypes
Bits(dt) == CASE dt \in {"int8", "uint8"} -> 8 [] dt \in {"int16", "uint16"} -> 16 [] dt \in {"int32", "uint32", "float32"} -> 32
              [] dt \in {"int64", "uint64", "float64"} -> 64

\* the dtype that holds values of both (NumPy promotion)
Promote(a, b) ==
  IF a = b THEN a
  ELSE IF IsIntType(a) /\ IsIntType(b)
    THEN IF (a \in SignedTypes) = (b \in SignedTypes) THEN (IF Bits(a) >= Bits(b) THEN a ELSE b)
         ELSE LET s == IF a \in SignedTypes THEN a ELSE b
                  u == IF a \in SignedTypes THEN b ELSE a
              IN IF Bits(s) > Bits(u) THEN s
                 ELSE CASE Bits(u) = 8 -> "int16" [] Bits(u) = 16 -> "int32" [] Bits(u) = 32 -> "int64" [] OTHER -> "float64"
  ELSE IF ~IsIntType(a) /\ ~IsIntType(b) THEN "float64"
  ELSE LET f == IF IsIntType(a) THEN b ELSE a
           i == IF IsIntType(a) THEN a ELSE b
       IN IF f = "float64" THEN f ELSE IF Bits(i) <= 16 THEN "float32" ELSE "float64"

CastPt(p, from, to) == IF from = to THEN p ELSE [i \in 1..Len(p) |-> RCast(p[i], to)]
CastPts(pts, from, to) == IF from = to THEN pts ELSE [i \in 1..Len(pts) |-> CastPt(pts[i], from, to)]

(* ------------------------- Python index semantics ----------------------- *)
\* optional integers are records [h |-> has value, v |-> value]
NoInt == [h |-> FALSE, v |-> 0]
AnInt(v) == [h |-> TRUE, v |-> v]

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* slice(a, b, s).indices(n): [b |-> start, e |-> stop, s |-> step]
SliceBounds(n, a, b, s) ==
  LET st == IF s.h THEN s.v ELSE 1
      lo == IF st > 0 THEN 0 ELSE -1
      hi == IF st > 0 THEN n ELSE n - 1
      fix(x) == Clamp(IF x < 0 THEN x + n ELSE x, lo, hi)
  IN [b |-> IF a.h THEN fix(a.v) ELSE IF st > 0 THEN lo ELSE hi,
      e |-> IF b.h THEN fix(b.v) ELSE IF st > 0 THEN hi ELSE lo,
      s |-> st]

\* the indices (0-based) a slice selects from a sequence of n elements, in order
SliceIdx(n, a, b, s) ==
  LET r == SliceBounds(n, a, b, s)
      cnt == IF r.s > 0
               THEN IF r.b < r.e THEN (r.e - r.b - 1) \div r.s + 1 ELSE 0
               ELSE IF r.e < r.b THEN (r.b - r.e - 1) \div (-r.s) + 1 ELSE 0
  IN [k \in 1..cnt |-> r.b + (k - 1) * r.s]

InBounds(i, n) == -n <= i /\ i < n
NormIdx(i, n) == IF i < 0 THEN i + n ELSE i
NormSeq(l, n) == [k \in 1..Len(l) |-> NormIdx(l[k], n)]

RECURSIVE MaskIdxFrom(_, _)
MaskIdxFrom(m, k) == IF k > Len(m) THEN <<>>
                     ELSE IF m[k] THEN <<k - 1>> \o MaskIdxFrom(m, k + 1) ELSE MaskIdxFrom(m, k + 1)
MaskIdx(m) == MaskIdxFrom(m, 1)

\* the indices an indexer selects: <<ok, indices>>
\* indexers: [f |-> "slice", a, b, s], [f |-> "list", l], [f |-> "mask", m]
Indices(n, x) ==
  CASE x.f = "slice" -> <<TRUE, SliceIdx(n, x.a, x.b, x.s)>>
    [] x.f = "list"  -> IF \A k \in 1..Len(x.l) : InBounds(x.l[k], n)
                          THEN <<TRUE, NormSeq(x.l, n)>> ELSE <<FALSE, <<>>>>
    [] x.f = "mask"  -> IF Len(x.m) = n THEN <<TRUE, MaskIdx(x.m)>> ELSE <<FALSE, <<>>>>
    [] x.f = "int"   -> IF InBounds(x.i, n) THEN <<TRUE, <<NormIdx(x.i, n)>>>> ELSE <<FALSE, <<>>>>

\* the elements of a sequence at 0-based indices
Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k] + 1]]

PickCurve(c, idx) ==
  Curve(c.nd, Pick(c.pts, idx), c.par, IF c.par THEN Pick(c.t, idx) ELSE <<>>, c.dt)

\* the indices that are kept when the set D is removed
KeepIdx(n, D) == SelectSeq([k \in 1..n |-> k - 1], LAMBDA i : i \notin D)

(* ----------------------------- C03: access ------------------------------ *)
GetCurve(c, x) ==
  LET r == Indices(Size(c), x)
  IN IF r[1] THEN OkC(PickCurve(c, r[2])) ELSE Err({"IndexError"})

\* c[i]: the point, its index and parameter value; a point may hold floating point numbers
PointIs(c, p, o) == o = p \/ o = CastPt(p, c.dt, "float64")
GetPoint(c, i) ==
  IF InBounds(i, Size(c))
    THEN Val([p |-> c.pts[NormIdx(i, Size(c)) + 1], i |-> NormIdx(i, Size(c))])
    ELSE Err({"IndexError"})

\* c[i].subcurve(c[j], endpoint)
SubCurve(c, i, j, endpoint) ==
  LET n == Size(c)
      a == NormIdx(i, n)
      b == NormIdx(j, n) + (IF endpoint THEN 1 ELSE 0)
  IN PickCurve(c, [k \in 1..(IF a < b THEN b - a ELSE 0) |-> a + k - 1])

(* ----------------------------- C04: editing ----------------------------- *)
Concat(c, d) ==
  IF c.nd # d.nd THEN Err({"ValueError"})
  ELSE LET dt == Promote(c.dt, d.dt)
           par == c.par /\ d.par
       IN OkC(Curve(c.nd, CastPts(c.pts, c.dt, dt) \o CastPts(d.pts, d.dt, dt),
                    par, IF par THEN c.t \o d.t ELSE <<>>, dt))

ReverseCurve(c) == Curve(c.nd, Reverse(c.pts), c.par, Reverse(c.t), c.dt)

\* stable sort of positions (0-based, in 0..n) given with their rank in the list
\* rows inserted before position p of the original, in list order
InsertBefore(pos, rows, p) ==
  LET ks == SelectSeq([k \in 1..Len(pos) |-> k], LAMBDA k : pos[k] = p)
  IN [j \in 1..Len(ks) |-> rows[ks[j]]]

RECURSIVE InsertFrom(_, _, _, _)
InsertFrom(pts, pos, rows, p) ==
  InsertBefore(pos, rows, p)
    \o (IF p = Len(pts) THEN <<>> ELSE <<pts[p + 1]>> \o InsertFrom(pts, pos, rows, p + 1))

\* rows: what is inserted (already of the curve's dtype); x: int, list or slice
InsertRows(c, x, rows) ==
  LET n == Size(c)
      m == Len(rows)
      blk(p) == OkC(Curve(c.nd, SubSeq(c.pts, 1, p) \o rows \o SubSeq(c.pts, p + 1, n), FALSE, <<>>, c.dt))
      many(pos) ==
        IF \E k \in 1..Len(pos) : pos[k] < 0 \/ pos[k] > n THEN Err({"IndexError", "ValueError"})
        ELSE IF Len(pos) = 1 THEN blk(pos[1])
        ELSE IF m = Len(pos) THEN OkC(Curve(c.nd, InsertFrom(c.pts, pos, rows, 0), FALSE, <<>>, c.dt))
        ELSE IF m = 1 THEN OkC(Curve(c.nd, InsertFrom(c.pts, pos, [k \in 1..Len(pos) |-> rows[1]], 0),
                                     FALSE, <<>>, c.dt))
        ELSE Err({"ValueError"})
  IN CASE x.f = "int" -> IF -n <= x.i /\ x.i <= n
                           THEN blk(IF x.i < 0 THEN x.i + n ELSE x.i) ELSE Err({"IndexError"})
       [] x.f = "list" -> many([k \in 1..Len(x.l) |-> IF x.l[k] < 0 THEN x.l[k] + n ELSE x.l[k]])
       [] x.f = "slice" -> many(SliceIdx(n, x.a, x.b, x.s))

\* o: [nd, pts, dt] - a curve, or a point as a one-point curve
InsertPts(c, x, o) ==
  IF c.nd # o.nd THEN Err({"ValueError"})
  ELSE InsertRows(c, x, CastPts(o.pts, o.dt, c.dt))

AppendPts(c, o) ==
  IF c.nd # o.nd THEN Err({"ValueError"})
  ELSE OkC(Curve(c.nd, c.pts \o CastPts(o.pts, o.dt, c.dt), FALSE, <<>>, c.dt))

DeletePts(c, x) ==
  LET r == Indices(Size(c), x)
  IN IF r[1] THEN OkC(PickCurve(c, KeepIdx(Size(c), ToSet(r[2])))) ELSE Err({"IndexError"})

(* ------------------------- C05: dimension editing ----------------------- *)
InsertCoord(p, a, v) == SubSeq(p, 1, a) \o <<v>> \o SubSeq(p, a + 1, Len(p))

\* vals: [h |-> given, v |-> sequence of numbers]
InsertDim(c, axis, vals) ==
  LET n == Size(c)
      vs == IF ~vals.h THEN [i \in 1..n |-> Zero]
            ELSE IF Len(vals.v) = n THEN vals.v
            ELSE IF Len(vals.v) = 1 THEN [i \in 1..n |-> vals.v[1]] ELSE <<>>
      a == IF axis < 0 THEN axis + c.nd ELSE axis
  IN IF a < 0 \/ a > c.nd THEN Err({"IndexError"})
     ELSE IF vals.h /\ Len(vals.v) \notin {n, 1} THEN Err({"ValueError"})
     ELSE OkC(Curve(c.nd + 1, [i \in 1..n |-> InsertCoord(c.pts[i], a, RCast(vs[i], c.dt))], FALSE, <<>>, c.dt))

DeleteDim(c, x) ==
  IF c.nd = 2 THEN Err({"ValueError"})
  ELSE LET r == Indices(c.nd, x)
           keep == KeepIdx(c.nd, ToSet(r[2]))
       IN IF ~r[1] THEN Err({"IndexError"})
          ELSE IF Len(keep) < 2 THEN Err({"ValueError"})
          ELSE OkC(Curve(Len(keep), [i \in 1..Size(c) |-> Pick(c.pts[i], keep)], FALSE, <<>>, c.dt))

AxisValues(c, axis) ==
  IF ~InBounds(axis, c.nd) THEN Err({"IndexError", "ValueError"})
  ELSE Val([i \in 1..Size(c) |-> c.pts[i][NormIdx(axis, c.nd) + 1]])

(* --------------------- C06: equality and membership --------------------- *)
\* Closeness is decided by the library with a rounded formula and is not symmetric, so it is
\* three-valued here: "T", "F", or "U" close to the boundary.
CloseTri(a, b) ==
  IF RIsFin(a) /\ RIsFin(b)
    THEN LET d == RAbs(RSub(a, b))
             tol(x, k) == RMul(k, RAdd("1/100000000", RMul("1/100000", RAbs(x))))
         IN IF RLe(d, RMin(tol(a, "999/1000"), tol(b, "999/1000"))) THEN "T"
            ELSE IF RLt(RMax(tol(a, "1001/1000"), tol(b, "1001/1000")), d) THEN "F" ELSE "U"
    ELSE IF RCmp(a, b) = 0 THEN "T" ELSE "F"

AllTri(S) == IF "F" \in S THEN "F" ELSE IF "U" \in S THEN "U" ELSE "T"
AnyTri(S) == IF "T" \in S THEN "T" ELSE IF "U" \in S THEN "U" ELSE "F"

EqNum(a, b, exact) == IF exact THEN (IF a = b THEN "T" ELSE "F") ELSE CloseTri(a, b)
EqPt(p, q, exact) == AllTri({EqNum(p[i], q[i], exact) : i \in 1..Len(p)})
Exact(x, y) == IsIntType(x.dt) /\ IsIntType(y.dt)

EqPts(ps, qs, exact) == AllTri({EqPt(ps[i], qs[i], exact) : i \in 1..Len(ps)})

EqCurve(c, d) ==
  IF c.nd # d.nd \/ Size(c) # Size(d) THEN "F" ELSE EqPts(c.pts, d.pts, Exact(c, d))

\* points as [v, dt]
EqPoint(p, q) == IF Len(p.v) # Len(q.v) THEN "F" ELSE EqPt(p.v, q.v, Exact(p, q))

HasPoint(c, p) ==
  IF c.nd # Len(p.v) THEN "F"
  ELSE AnyTri({EqPt(p.v, c.pts[i], Exact(c, p)) : i \in 1..Size(c)})

HasRun(c, d) ==
  IF c.nd # d.nd THEN "F"
  ELSE AnyTri({EqPts(SubSeq(c.pts, i, i + Size(d) - 1), d.pts, Exact(c, d)) : i \in 1..(Size(c) - Size(d) + 1)})

\* the first index in slice(a, b) of a point equal to p, if that is certain
CountOk(c, p, n) ==
  LET tri == [i \in 1..Size(c) |-> EqPt(p.v, c.pts[i], Exact(c, p))]
      sure == Cardinality({i \in 1..Size(c) : tri[i] = "T"})
      maybe == Cardinality({i \in 1..Size(c) : tri[i] = "U"})
  IN sure <= n /\ n <= sure + maybe

IndexOk(c, p, a, b, found, i) ==
  LET idx == SliceIdx(Size(c), a, b, NoInt)
      tri == [k \in 1..Len(idx) |-> EqPt(p.v, c.pts[idx[k] + 1], Exact(c, p))]
  IN IF ~found THEN \A k \in 1..Len(idx) : tri[k] # "T"
     ELSE \E k \in 1..Len(idx) : /\ idx[k] = i
                                 /\ tri[k] # "F"
                                 /\ \A j \in 1..(k - 1) : tri[j] # "T"

TriOk(tri, b) == tri = "U" \/ (tri = "T") = b

(* ------------------------------ C07: filters ---------------------------- *)
HasNan(p) == \E i \in 1..Len(p) : RIsNan(p[i])

FirstIdx(pts) == SelectSeq([k \in 1..Len(pts) |-> k - 1],
                           LAMBDA i : HasNan(pts[i + 1]) \/ \A j \in 1..i : pts[j] # pts[i + 1])
Unique(c) == PickCurve(c, FirstIdx(c.pts))

Dist2(p, q) == VDot(VSub(p, q), VSub(p, q))
\* zero-length segment: the length is within 1e-8 of zero; "U" close to that
ZeroTri(p, q) ==
  LET d2 == Dist2(p, q)
  IN IF RLe(d2, "99/1000000000000000000") THEN "T"
     ELSE IF RLe(d2, "101/1000000000000000000") THEN "U" ELSE "F"

FinitePts(c) == PickCurve(c, SelectSeq([k \in 1..Size(c) |-> k - 1], LAMBDA i : VFin(c.pts[i + 1])))
NoCoincident(c) ==
  PickCurve(c, SelectSeq([k \in 1..Size(c) |-> k - 1],
                         LAMBDA i : i = 0 \/ ZeroTri(c.pts[i], c.pts[i + 1]) = "F"))
Nonsingular(c) == NoCoincident(FinitePts(c))
\* every distance decides clearly, and no two points are close but not equal
NonsingularSure(c) ==
  LET f == FinitePts(c)
      \* integers beyond the precision of floating point
      blurred(p, q) == IsIntType(c.dt) /\ p # q /\ RLe(Dist2(p, q), RSqr(RMul("1/1000000000000000", RMax(VMaxAbs(p), VMaxAbs(q)))))
  IN \A i \in 1..(Size(f) - 1) : ZeroTri(f.pts[i], f.pts[i + 1]) # "U" /\ ~blurred(f.pts[i], f.pts[i + 1])

(* --------------------------- C14: co-orientation ------------------------ *)
Cross2(p, q, a1, a2) == RSub(RMul(p[a1], q[a2]), RMul(p[a2], q[a1]))
\* the curves that co-orientation may return
CoOrient(c, a1, a2) ==
  IF Size(c) <= 1 THEN {OkC(c)}
  ELSE IF ~InBounds(a1, c.nd) \/ ~InBounds(a2, c.nd) THEN {Err({"IndexError"})}
  ELSE LET p == c.pts[1]
           q == c.pts[Size(c)]
           x == NormIdx(a1, c.nd) + 1
           y == NormIdx(a2, c.nd) + 1
       IN IF ~(RIsFin(p[x]) /\ RIsFin(p[y]) /\ RIsFin(q[x]) /\ RIsFin(q[y]))
            THEN {OkC(c), OkC(ReverseCurve(c))}
          ELSE LET d == Cross2(p, q, x, y)
                   m == RMul("1/1000000000000",
                             RAdd(RAbs(RMul(p[x], q[y])), RAbs(RMul(p[y], q[x]))))
                   \* any way of computing the determinant of these numbers is exact
                   exact == \A v \in {p[x], p[y], q[x], q[y]} :
                              v \in {"0", "1", "-1", "2", "-2", "1/2", "-1/2", "4", "-4"}
               IN IF ~exact /\ m # Zero /\ RLe(RAbs(d), m) THEN {OkC(c), OkC(ReverseCurve(c))}
                  ELSE IF RLt(Zero, d) THEN {OkC(c)} ELSE {OkC(ReverseCurve(c))}

(* ---------------------------- C02: construction ------------------------- *)
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
ProdFrom(s, k) == ProdTo([i \in 1..(Len(s) - k + 1) |-> s[k + i - 1]], Len(s) - k + 1)
\* coordinate of flat (row-major, 0-based) position f along axis a (1-based)
CoordOf(shape, f, a) == (f \div ProdFrom(shape, a + 1)) % shape[a]

\* the points along axis a (0-based) of an array given by shape and row-major values
AlongAxis(shape, flat, a) ==
  LET n == shape[a + 1]
  IN [i \in 1..n |->
        LET fs == SelectSeq([k \in 1..Len(flat) |-> k - 1], LAMBDA f : CoordOf(shape, f, a + 1) = i - 1)
        IN [j \in 1..Len(fs) |-> flat[fs[j] + 1]]]

PadPt(p, n) == IF Len(p) >= n THEN p ELSE p \o [i \in 1..(n - Len(p)) |-> Zero]

\* src: [form: "seq" | "array" | "curve", shape, flat, dt, c (a curve, used when form = "curve")]
\* opt: [axis, ndmin: optional ints; dtype: [h, v]; num: the dtype is numeric;
\*       tdata: [h, shape, flat]]
Construct(src, opt) ==
  LET isCurve == src.form = "curve"
      axis0 == IF isCurve THEN 0 ELSE IF opt.axis.h THEN opt.axis.v ELSE IF src.form = "array" THEN 0 ELSE 1
      ndmin == IF opt.ndmin.h THEN opt.ndmin.v ELSE 2
      dt == IF opt.dtype.h THEN opt.dtype.v ELSE IF src.form = "seq" THEN "float64"
            ELSE IF isCurve THEN src.c.dt ELSE src.dt
      rank == Len(src.shape)
      axis == IF axis0 < 0 THEN axis0 + rank ELSE axis0
      empty == IF isCurve THEN Size(src.c) = 0 ELSE Len(src.flat) = 0
      badAxis == ~isCurve /\ ~empty /\ (axis < 0 \/ axis >= rank)
      raw == IF isCurve THEN src.c.pts
             ELSE IF empty \/ badAxis THEN <<>> ELSE AlongAxis(src.shape, src.flat, axis)
      rawnd == IF isCurve THEN src.c.nd ELSE IF raw = <<>> THEN 2 ELSE Len(raw[1])
      keepnd == IF isCurve THEN src.c.nd
                ELSE IF src.form = "array" /\ rank = 2 /\ axis0 = 0 /\ src.shape[1] = 0 THEN src.shape[2] ELSE 2
      nd == IF empty THEN (IF keepnd > ndmin THEN keepnd ELSE ndmin)
            ELSE IF rawnd < ndmin THEN ndmin ELSE rawnd
      pts == [i \in 1..Len(raw) |-> PadPt([j \in 1..Len(raw[i]) |-> RCast(raw[i][j], dt)], nd)]
      td == IF isCurve THEN [h |-> src.c.par, shape |-> <<Len(src.c.t)>>, flat |-> src.c.t] ELSE opt.tdata
  IN IF ndmin < 2 \/ badAxis \/ (~empty /\ rawnd < 2) \/ ~opt.num THEN Err({"ValueError"})
     ELSE IF td.h /\ (Len(td.shape) # 1 \/ Len(td.flat) # Len(pts)) THEN Err({"ValueError"})
     ELSE OkC(Curve(nd, pts, td.h, IF td.h THEN td.flat ELSE <<>>, dt))
=============================================================================
