----------------------------- MODULE TracePoint -----------------------------
(* Recorded calls of points (C15).                                            *)
EXTENDS TraceFn, PointAlg

E64 == "1/2251799813685248"      \* 2 units in the last place
E32 == "1/4194304"
EpsOf(f32) == IF f32 THEN E32 ELSE E64

RelNear(o, e, k) == RNear(o, e, RMul(k, RAbs(e)))

\* a number operand is first rounded to the precision of the point
ArithNear(op, o, a, b, f32) ==
  LET e == Arith(op, a, b)
      k == EpsOf(f32)
  IN IF op = "floordiv" /\ f32 /\ RIsFin(e)
     THEN LET q == RDiv(a, b)
              d == RMul(k, RAbs(q))
          IN o = RFloor(RAdd(q, d)) \/ o = RFloor(RSub(q, d))
     ELSE RNear(o, e, IF op \in {"add", "sub"} THEN RMul(k, RAdd(RAbs(a), RAbs(b))) ELSE RMul(k, RAbs(e)))

ArithFails(ev) ==
  LET n == IF ev.l.kind = "point" THEN Len(ev.l.v) ELSE Len(ev.r.v)
      a == VEC(ev.l, n)
      b == VEC(ev.r, n)
      o == ev.out.v
  IN F("C15: arithmetic gives a point", ev.out.k = "val" /\ o.ispoint)
     \union (IF ev.out.k = "val" /\ o.ispoint
             THEN F("C15: arithmetic acts coordinate-wise", Len(o.v) = n /\
                    \A i \in 1..n : ArithNear(ev.f, o.v[i], a[i], b[i], ev.f32))
             ELSE {})
     \union F("C15: operands unchanged", ev.same)

ProductFails(ev) ==
  LET u == ev.u
      v == ev.v
      mag == VSum([i \in 1..Len(u) |-> RAbs(RMul(u[i], v[i]))])
      k == RMul(RMul("4", RInt(Len(u))), EpsOf(ev.f32))
  IN F("C15: dot product", ev.out.k = "val" /\ RNear(ev.out.v.dot, VDot(u, v), RMul(k, mag)))
     \union F("C15: norm", ev.out.k = "val" /\ RelNear(ev.out.v.norm, VNorm(u), k))
     \union F("C15: operands unchanged", ev.same)

\* the conditioning of a metric: absolute error of the reference magnitude
MetricFails(ev) ==
  LET u == ev.u
      v == ev.v
      n == RInt(Len(u))
      scale == RAdd(VMaxAbs(u), VMaxAbs(v))
      e == Metric(ev.name, u, v, ev.kw)
      k == RMul(RMul("64", n), EpsOf(ev.f32))
      o == ev.out.v
  IN IF ev.out.k # "val" THEN {"C15: a metric fails (" \o ev.name \o ")"}
     ELSE F("C15: distance " \o ev.name,
            IF ~RIsFin(e) THEN TRUE
            ELSE CASE ev.name \in {"cosine", "correlation"} -> RNear(o, e, RMul(RMul("16", RMul(scale, scale)), k))
                   [] ev.name = "jensenshannon" ->
                        LET t == RMul("64", k)
                        IN IF RIsFin(o) THEN RNear(RSqr(o), RSqr(e), t) ELSE RLe(RSqr(e), t)
                   [] OTHER -> RelNear(o, e, k))
          \union F("C15: operands unchanged", ev.same)

PointFails(ev) ==
  CASE ev.op = "arith" -> ArithFails(ev)
    [] ev.op = "product" -> ProductFails(ev)
    [] ev.op = "metric" -> MetricFails(ev)
    [] ev.op = "reject" -> ErrFails("C15", ToSet(ev.expected), ev.out)
    [] ev.op = "copy" -> ValFails("C15", "a copy keeps values and dtype",
                            ev.out.v.v = ev.v /\ ev.out.v.dt = ev.dt /\ ev.out.v.ispoint /\ ev.out.v.equal, ev.out)
    [] ev.op = "coord" ->
         IF ev.i < -Len(ev.v) \/ ev.i >= Len(ev.v) THEN ErrFails("C15", {"IndexError"}, ev.out)
         ELSE ValFails("C15", "coordinate by index",
                       ev.out.v = ev.v[(IF ev.i < 0 THEN ev.i + Len(ev.v) ELSE ev.i) + 1], ev.out)
    [] ev.op = "slice" -> ValFails("C15", "coordinates by slice", ev.out.v = CoordSlice(ev.v, ev.a, ev.b, ev.s), ev.out)
    [] ev.op = "seq" -> ValFails("C15", "length and iteration agree with the coordinates",
                           ev.out.v.len = Len(ev.v) /\ ev.out.v.ndim = Len(ev.v) /\ ev.out.v.iter = ev.v
                           /\ ev.out.v.truth = (Len(ev.v) > 0) /\ ev.out.v.rev = [i \in 1..Len(ev.v) |-> ev.v[Len(ev.v) + 1 - i]], ev.out)
    [] ev.op = "names" -> ValFails("C15", "known metrics", ToSet(ev.out.v) = MetricNames /\ Len(ev.out.v) = Cardinality(MetricNames), ev.out)
=============================================================================
