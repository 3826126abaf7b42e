------------------------------ MODULE PointAlg ------------------------------
(* Points as vectors: arithmetic, products and the named distance metrics.    *)
EXTENDS Rat, FiniteSets, TLC

VEC(x, n) == IF x.kind = "point" THEN x.v ELSE [i \in 1..n |-> x.v[1]]     \* numbers act on every coordinate

Arith(op, a, b) ==
  CASE op = "add" -> RAdd(a, b) [] op = "sub" -> RSub(a, b) [] op = "mul" -> RMul(a, b)
    [] op = "truediv" -> RDiv(a, b) [] op = "floordiv" -> RFloor(RDiv(a, b))

(* -------------------------------- metrics -------------------------------- *)
AbsDiff(u, v) == [i \in 1..Len(u) |-> RAbs(RSub(u[i], v[i]))]
Mean(u) == RDiv(VSum(u), RInt(Len(u)))
Centered(u) == LET m == Mean(u) IN [i \in 1..Len(u) |-> RSub(u[i], m)]

RECURSIVE RPowN(_, _)
RPowN(a, k) == IF k = 0 THEN One ELSE RMul(a, RPowN(a, k - 1))
\* the p-th root, p a power of two
Root(a, p) == CASE p = 1 -> a [] p = 2 -> RSqrt(a) [] p = 4 -> RSqrt(RSqrt(a))
Minkowski(u, v, p, w) == Root(VSum([i \in 1..Len(u) |-> RMul(w[i], RPowN(RAbs(RSub(u[i], v[i])), p))]), p)
Ones(n) == [i \in 1..n |-> One]

CosineDist(u, v) == RSub(One, RDiv(VDot(u, v), RSqrt(RMul(VNorm2(u), VNorm2(v)))))

\* Kullback-Leibler divergence of p from m, p_i = 0 contributes nothing
KL(p, m) == VSum([i \in 1..Len(p) |-> IF p[i] = Zero THEN Zero ELSE RMul(p[i], RLn(RDiv(p[i], m[i])))])
\* the square of the Jensen-Shannon distance
JS2(u, v) ==
  LET p == VScale(RDiv(One, VSum(u)), u)
      q == VScale(RDiv(One, VSum(v)), v)
      m == VScale(Half, VAdd(p, q))
  IN RMul(Half, RAdd(KL(p, m), KL(q, m)))

MatVec(M, v) == [i \in 1..Len(M) |-> VDot(M[i], v)]

Metric(name, u, v, kw) ==
  LET d == AbsDiff(u, v)
      n == Len(u)
  IN CASE name = "braycurtis" -> RDiv(VSum(d), VSum([i \in 1..n |-> RAbs(RAdd(u[i], v[i]))]))
       [] name = "canberra" -> VSum([i \in 1..n |-> IF d[i] = Zero THEN Zero
                                                    ELSE RDiv(d[i], RAdd(RAbs(u[i]), RAbs(v[i])))])
       [] name = "chebyshev" -> VMaxAbs(d)
       [] name = "cityblock" -> VSum(d)
       [] name = "correlation" -> CosineDist(Centered(u), Centered(v))
       [] name = "cosine" -> CosineDist(u, v)
       [] name = "euclidean" -> VNorm(d)
       [] name = "jensenshannon" -> RSqrt(RMax(Zero, JS2(u, v)))
       [] name = "mahalanobis" -> RSqrt(VDot(VSub(u, v), MatVec(kw.VI, VSub(u, v))))
       [] name = "minkowski" -> Minkowski(u, v, kw.p, IF kw.w = <<>> THEN Ones(n) ELSE kw.w)
       [] name = "seuclidean" -> RSqrt(VSum([i \in 1..n |-> RDiv(RSqr(d[i]), kw.V[i])]))
       [] name = "sqeuclidean" -> VNorm2(d)
       [] name = "wminkowski" -> Minkowski(u, v, kw.p, [i \in 1..n |-> RPowN(kw.w[i], kw.p)])
       [] name = "callable:cheb2" -> RMul("2", VMaxAbs(d))            \* the test's own metric
       [] name = "callable:first" -> RSub(u[1], v[1])                 \* not symmetric

MetricNames == {"braycurtis", "canberra", "chebyshev", "cityblock", "correlation", "cosine", "euclidean",
                "jensenshannon", "mahalanobis", "minkowski", "seuclidean", "sqeuclidean", "wminkowski"}

(* ------------------------------- sequences ------------------------------- *)
\* the coordinates a Python slice [a:b:s] selects; a, b are optional ([h, v])
PyStart(o, n, s) == IF ~o.h THEN (IF s > 0 THEN 0 ELSE n - 1)
                    ELSE LET x == IF o.v < 0 THEN o.v + n ELSE o.v
                         IN IF s > 0 THEN (IF x < 0 THEN 0 ELSE IF x > n THEN n ELSE x)
                            ELSE (IF x < -1 THEN -1 ELSE IF x > n - 1 THEN n - 1 ELSE x)
PyStop(o, n, s) == IF ~o.h THEN (IF s > 0 THEN n ELSE -1)
                   ELSE LET x == IF o.v < 0 THEN o.v + n ELSE o.v
                        IN IF s > 0 THEN (IF x < 0 THEN 0 ELSE IF x > n THEN n ELSE x)
                           ELSE (IF x < -1 THEN -1 ELSE IF x > n - 1 THEN n - 1 ELSE x)
RECURSIVE PyRange(_, _, _)
PyRange(i, e, s) == IF (s > 0 /\ i >= e) \/ (s < 0 /\ i <= e) THEN <<>> ELSE <<i>> \o PyRange(i + s, e, s)
CoordSlice(v, a, b, s) ==
  LET n == Len(v)
      ix == PyRange(PyStart(a, n, s), PyStop(b, n, s), s)
  IN [k \in 1..Len(ix) |-> v[ix[k] + 1]]
=============================================================================
