------------------------------- MODULE PointMC ------------------------------
(* Every arithmetic expression, product, metric and selection of coordinates of  *)
(* small points: the laws, and the calls, to be made on the real code.           *)
EXTENDS PointAlg, Json

CONSTANTS V, L, Dts, Nums            \* coordinates, longest point, types of points, types of numbers

VARIABLES x
vars == <<x>>

Vecs(n) == [1..n -> V]
Vec_ == UNION {Vecs(n) : n \in 1..L}
IsInt(v) == v = RFloor(v)
Typed(v, dt) == dt \in {"float64", "float32"} \/ ((\A i \in 1..Len(v) : IsInt(v[i])) /\ (dt # "uint8" \/ \A i \in 1..Len(v) : RLe(Zero, v[i])))
NumTyped(a, ty) == CASE ty = "bool" -> a \in {Zero, One} [] ty \in {"int", "npi"} -> IsInt(a) [] OTHER -> TRUE
Pt(v, dt) == [kind |-> "point", v |-> v, dt |-> dt]
Nu(a, ty) == [kind |-> "number", v |-> <<a>>, dt |-> ty]
Ops == {"add", "sub", "mul", "truediv", "floordiv"}
Div(f) == f \in {"truediv", "floordiv"}
NoZero(o) == \A i \in 1..Len(o.v) : o.v[i] # Zero

Kw0 == [p |-> 2, w |-> <<>>, V |-> <<>>, VI |-> <<>>]
Wt(n) == SubSeq(<<"2", "1/2", "1">>, 1, n)
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
Tri(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "3" ELSE One]]
Kws(name, n) ==
  CASE name = "minkowski" -> {[Kw0 EXCEPT !.p = p] : p \in {1, 2, 4}} \union {[Kw0 EXCEPT !.p = 2, !.w = Wt(n)]}
    [] name = "wminkowski" -> {[Kw0 EXCEPT !.p = p, !.w = Wt(n)] : p \in {1, 2, 4}}
    [] name = "seuclidean" -> {[Kw0 EXCEPT !.V = Wt(n)]}
    [] name = "mahalanobis" -> {[Kw0 EXCEPT !.VI = Tri(n)]}
    [] OTHER -> {Kw0}
Positive(v) == \A i \in 1..Len(v) : RLt(Zero, v[i])

OptI(S) == {[h |-> FALSE, v |-> 0]} \union {[h |-> TRUE, v |-> i] : i \in S}
Line(n) == SubSeq(<<"5", "-7", "1/2", "9", "4">>, 1, n)

Init == x = [op |-> ""]
Next ==
  /\ x.op = ""
  /\ \/ \E f \in Ops, u \in Vec_, d \in Dts, e \in Dts : \E v \in Vecs(Len(u)) :
          /\ Typed(u, d) /\ Typed(v, e) /\ (Div(f) => NoZero(Pt(v, e)))
          /\ x' = [op |-> "arith", f |-> f, l |-> Pt(u, d), r |-> Pt(v, e)]
     \/ \E f \in Ops, u \in Vec_, d \in Dts, a \in V, ty \in Nums :
          /\ Typed(u, d) /\ NumTyped(a, ty)
          /\ \/ (Div(f) => a # Zero) /\ x' = [op |-> "arith", f |-> f, l |-> Pt(u, d), r |-> Nu(a, ty)]
             \/ /\ Div(f) => NoZero(Pt(u, d))
                /\ ty \in {"int", "float", "bool"}                      \* numpy's own numbers take over from the left
                /\ x' = [op |-> "arith", f |-> f, l |-> Nu(a, ty), r |-> Pt(u, d)]
     \/ \E u \in Vec_ : \E v \in Vecs(Len(u)) : x' = [op |-> "product", u |-> u, v |-> v]
     \/ \E name \in MetricNames, u \in Vec_ : \E v \in Vecs(Len(u)), kw \in Kws(name, Len(u)) :
          /\ name = "jensenshannon" => Positive(u) /\ Positive(v)
          /\ x' = [op |-> "metric", name |-> name, u |-> u, v |-> v, kw |-> kw]
     \/ \E n \in 1..5 : \E i \in (-n - 2)..(n + 1) : x' = [op |-> "coord", v |-> Line(n), i |-> i]
     \/ \E n \in 1..5 : \E a, b \in OptI((-n - 2)..(n + 2)), s \in {0, 1, 2, 3, -1, -2, -3} :       \* 0: not given
          x' = [op |-> "slice", v |-> Line(n), a |-> a, b |-> b, s |-> s]
Spec == Init /\ [][Next]_vars
Emit == x.op = "" \/ PrintT("BEH " \o ToJson(x))

(* ----------------------------------- laws --------------------------------- *)
Tiny == "1/1000000000000000000000000000000"
N_ == IF x.l.kind = "point" THEN Len(x.l.v) ELSE Len(x.r.v)
ArithLaws ==
  x.op = "arith" =>
    \A i \in 1..N_ :
      LET a == VEC(x.l, N_)[i]
          b == VEC(x.r, N_)[i]
          o == Arith(x.f, a, b)
      IN CASE x.f = "add" -> o = Arith("add", b, a) /\ Arith("sub", o, b) = a
           [] x.f = "sub" -> o = RNeg(Arith("sub", b, a)) /\ Arith("add", o, b) = a
           [] x.f = "mul" -> o = Arith("mul", b, a) /\ (b # Zero => Arith("truediv", o, b) = a)
           [] x.f = "truediv" -> Arith("mul", o, b) = a
           [] x.f = "floordiv" ->          \* the remainder has the sign of the divisor and is smaller
                LET r == RSub(a, RMul(o, b))
                IN IsInt(o) /\ RLt(RAbs(r), RAbs(b)) /\ (r = Zero \/ RLt(r, Zero) = RLt(b, Zero))
Dm(name, u, v, kw) == Metric(name, u, v, kw)
MetricLaws ==
  x.op = "metric" =>
    LET n == Len(x.u)
        d == Dm(x.name, x.u, x.v, x.kw)
        near(a, b) == RIsFin(a) => RNear(a, b, Tiny)
        plain == x.kw = Kw0
        eu == Dm("euclidean", x.u, x.v, Kw0)
    IN /\ RIsFin(d) => RLe(RNeg(Tiny), d)
       /\ d = Dm(x.name, x.v, x.u, x.kw)
       /\ RIsFin(Dm(x.name, x.u, x.u, x.kw)) => RNear(Dm(x.name, x.u, x.u, x.kw), Zero, Tiny)
       /\ (x.name \in {"euclidean", "cityblock", "chebyshev", "sqeuclidean", "minkowski", "wminkowski", "seuclidean", "mahalanobis"}
           /\ x.u # x.v) => RLt(Zero, d)
       /\ (x.name = "minkowski" /\ x.kw.w = <<>>) =>
             near(d, CASE x.kw.p = 1 -> Dm("cityblock", x.u, x.v, Kw0) [] x.kw.p = 2 -> eu [] OTHER -> d)
       /\ x.name = "sqeuclidean" => near(d, RSqr(eu))
       /\ x.name = "wminkowski" => near(Dm("wminkowski", x.u, x.v, [x.kw EXCEPT !.w = Ones(n)]),
                                        Dm("minkowski", x.u, x.v, [x.kw EXCEPT !.w = <<>>]))
       /\ x.name = "seuclidean" => near(Dm("seuclidean", x.u, x.v, [Kw0 EXCEPT !.V = Ones(n)]), eu)
       /\ x.name = "mahalanobis" => near(Dm("mahalanobis", x.u, x.v, [Kw0 EXCEPT !.VI = Eye(n)]), eu)
       /\ x.name = "chebyshev" => RLe(d, RAdd(eu, Tiny)) /\ RLe(eu, RAdd(Dm("cityblock", x.u, x.v, Kw0), Tiny))
       /\ x.name \in {"braycurtis", "jensenshannon"} /\ Positive(x.u) /\ Positive(x.v) => RLe(d, One)
       /\ x.name \in {"cosine", "correlation"} /\ RIsFin(d) => RLe(d, RAdd("2", Tiny))
       \* no detour is shorter
       /\ x.name \in {"euclidean", "cityblock", "chebyshev", "seuclidean", "mahalanobis"} \/ (x.name = "minkowski" /\ plain) =>
             LET w == VScale("-1", x.v) IN RLe(d, RAdd(RAdd(Dm(x.name, x.u, w, x.kw), Dm(x.name, w, x.v, x.kw)), Tiny))
SliceLaws_ ==
  x.op = "slice" =>
    LET n == Len(x.v)
        s == IF x.s = 0 THEN 1 ELSE x.s
        o == CoordSlice(x.v, x.a, x.b, s)
        w(b) == IF b.v < 0 THEN b.v + n ELSE b.v                 \* as a position from the begin
        \* position p (from 0) is reached
        in(p) == IF s > 0 THEN /\ x.a.h => p >= w(x.a)
                               /\ x.b.h => p < w(x.b)
                               /\ LET f == IF x.a.h /\ w(x.a) > 0 THEN w(x.a) ELSE 0 IN (p - f) % s = 0
                 ELSE /\ x.a.h => p <= w(x.a)
                      /\ x.b.h => p > w(x.b)
                      /\ LET f == IF x.a.h /\ w(x.a) < n - 1 THEN w(x.a) ELSE n - 1 IN (f - p) % (-s) = 0
        P == {p \in 0..(n - 1) : in(p)}
        rank(p) == Cardinality({q \in P : IF s > 0 THEN q <= p ELSE q >= p})
    IN Len(o) = Cardinality(P) /\ \A p \in P : o[rank(p)] = x.v[p + 1]
Laws == ArithLaws /\ MetricLaws /\ SliceLaws_
=============================================================================
