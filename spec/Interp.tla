------------------------------- MODULE Interp -------------------------------
(* Interpolation of curves: the grids, the interpolants of every method as   *)
(* exact functions of one coordinate, the extrapolation rules and the errors.*)
(*                                                                           *)
(* t is the parameter vector, y one coordinate of the points, both exact     *)
(* values of the floats the curve holds.                                     *)
EXTENDS Diff, Verdict

(* --------------------------------- grids --------------------------------- *)
\* n equally spaced values from a to b
Linspace(a, b, n) ==
  IF n = 1 THEN <<a>>
  ELSE [i \in 1..n |-> IF i = n THEN b ELSE RAdd(a, RMul(RDiv(RInt(i - 1), RInt(n - 1)), RSub(b, a)))]

\* the nearest integers to x, with room for the rounding of x
Counts(x) == {RToInt(RRoundEven(RMul(x, k))) : k \in {"999999999999/1000000000000", "1000000000001/1000000000000"}}

GridErr(S) == [k |-> "err", e |-> S]
Grids(S) == [k |-> "grids", g |-> S]

\* a polyline through (t, y), at x
SegOf(t, x) ==
  LET n == Len(t)
      S == {i \in 1..(n - 1) : RLe(t[i], x)}
  IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : j <= i
LinearAt(t, y, x) ==
  LET i == SegOf(t, x)
  IN RAdd(y[i], RMul(RDiv(RSub(y[i + 1], y[i]), RSub(t[i + 1], t[i])), RSub(x, t[i])))

IsNumTy(f) == f.ty \in {"int", "float"}
MaxSeq(v) == CHOOSE x \in ToSet(v) : \A z \in ToSet(v) : RLe(z, x)
MinSeq(v) == CHOOSE x \in ToSet(v) : \A z \in ToSet(v) : RLe(x, z)

\* what the construction of a grid object is to raise
RECURSIVE GridInitErr(_)
GridInitErr(g) ==
  CASE g.t = "uniform" ->
         IF g.kind \notin {"point", "length"} THEN {"ValueError"}
         ELSE IF g.kind = "point" THEN IF g.fill.ty # "int" THEN {"TypeError"}
                                       ELSE IF RLt(g.fill.v, "2") THEN {"ValueError"} ELSE {}
         ELSE IF ~IsNumTy(g.fill) THEN {"TypeError"} ELSE {}
    [] g.t = "extrap" ->
         LET e == GridInitErr(g.inner)
         IN IF e # {} THEN e
            ELSE IF g.kind \notin {"point", "length"} THEN {"ValueError"}
            ELSE IF g.kind = "point" THEN IF g.before.ty # "int" \/ g.after.ty # "int" THEN {"TypeError"} ELSE {}
            ELSE IF ~IsNumTy(g.before) \/ ~IsNumTy(g.after) THEN {"TypeError"} ELSE {}
    [] g.t = "speed" -> IF g.n < 2 THEN {"ValueError"} ELSE {}
    [] OTHER -> {}

\* the admissible values of a grid for the curve c with parameter vector t
RECURSIVE GridOf(_, _, _)
GridOf(g, c, t) ==
  LET m == Size(c)
      init == GridInitErr(g)
  IN IF init # {} THEN GridErr(init)
     ELSE CASE g.t = "int" -> GridOf([t |-> "uniform", kind |-> "point", fill |-> [ty |-> "int", v |-> RInt(g.n)]], c, t)
       [] g.t = "invalid" -> GridErr({"ValueError", "TypeError"})
       [] g.t = "values" -> IF g.rank # 1 \/ g.v = <<>> THEN GridErr({"ValueError"}) ELSE Grids({g.v})
       [] g.t = "uniform" ->
            IF m < 2 THEN GridErr({"ValueError"})
            ELSE LET ns == IF g.kind = "point" THEN {RToInt(g.fill.v)}
                           ELSE {k + 1 : k \in Counts(RDiv(ArcLen(c.pts), g.fill.v))}
                 IN IF \A n \in ns : n >= 1 THEN Grids({Linspace(t[1], t[m], n) : n \in ns}) ELSE GridErr({"ValueError"})
       [] g.t = "speed" ->
            IF c.par THEN GridOf([t |-> "int", n |-> g.n], c, t)
            ELSE IF m < 2 THEN GridErr({"ValueError"})
            ELSE LET x == Linspace(Zero, One, m)
                     xi == Linspace(Zero, One, g.n)
                 IN Grids({[i \in 1..g.n |-> IF i = 1 THEN Zero ELSE IF i = g.n THEN t[m]
                                             ELSE RRnd(LinearAt(x, t, xi[i]))]})
       [] g.t = "extrap" ->
            LET in == GridOf(g.inner, c, t)
            IN IF in.k = "err" THEN in
               ELSE LET one(v) ==
                          LET n == Len(v)
                              d == RDiv(RSub(v[n], v[1]), RInt(n - 1))
                              nb == IF g.kind = "point" THEN {RToInt(g.before.v)} ELSE Counts(RDiv(g.before.v, d))
                              na == IF g.kind = "point" THEN {RToInt(g.after.v)} ELSE Counts(RDiv(g.after.v, d))
                          IN {[i \in 1..(b + n + a) |->
                                IF i <= b THEN RSub(v[1], RMul(RInt(b + 1 - i), d))
                                ELSE IF i <= b + n THEN v[i - b]
                                ELSE RAdd(v[n], RMul(RInt(i - b - n), d))] : b \in nb, a \in na}
                        neg == g.kind = "point" /\ (RLt(g.before.v, Zero) \/ RLt(g.after.v, Zero))
                    IN IF neg THEN GridErr({"ValueError"})
                       ELSE IF \E v \in in.g : Len(v) < 2 THEN [k |-> "free"]    \* no spacing to go on with
                       ELSE Grids(UNION {one(v) : v \in in.g})

Increasing(v) == \A i \in 2..Len(v) : RLt(v[i - 1], v[i])
Covers(v, t) == RLe(MinSeq(v), t[1]) /\ RLe(t[Len(t)], MaxSeq(v))

(* ----------------------------- interpolants ------------------------------ *)
H(t, i) == RSub(t[i + 1], t[i])
Delta(t, y, i) == RDiv(RSub(y[i + 1], y[i]), H(t, i))
Deltas(t, y) == TLCEval([i \in 1..(Len(t) - 1) |-> RRnd(Delta(t, y, i))])
SV(v, e) == [v |-> v, e |-> e]

\* error allowed to a computed slope, relative to the largest chord slope
SlopeEps(dt) == IF dt = "float32" THEN "1/50000" ELSE "1/1000000000"
ValueEps(dt) == IF dt = "float32" THEN "1/200000" ELSE "1/100000000000"

Row(n, f(_)) == [j \in 1..n |-> f(j)]

\* slopes of the cubic spline through the points: second derivatives agree at the inner nodes, and the
\* end conditions hold.  A condition is [o |-> 1 | 2, v |-> value of that derivative] or [o |-> 3, v |-> _]:
\* not-a-knot.  "periodic" is [o |-> 4, ...] at both ends.
CubicSlopes(t, y, bc0, bc1, dt) ==
  LET n == Len(t)
      d == Deltas(t, y)
      h == TLCEval([i \in 1..(n - 1) |-> H(t, i)])
      per == bc0.o = 4
      inner(i) == [a |-> Row(n, LAMBDA j : IF j = i - 1 THEN RDiv("2", h[i - 1])
                                           ELSE IF j = i THEN RMul("4", RAdd(RDiv(One, h[i - 1]), RDiv(One, h[i])))
                                           ELSE IF j = i + 1 THEN RDiv("2", h[i]) ELSE Zero),
                   b |-> RMul("6", RAdd(RDiv(d[i - 1], h[i - 1]), RDiv(d[i], h[i])))]
      \* third derivative of piece i is zero
      flat(i) == [a |-> Row(n, LAMBDA j : IF j \in {i, i + 1} THEN One ELSE Zero), b |-> RMul("2", d[i])]
      \* third derivatives of pieces i and i + 1 agree
      nak(i) == LET p == RDiv(One, RSqr(h[i]))
                    q == RDiv(One, RSqr(h[i + 1]))
                IN [a |-> Row(n, LAMBDA j : IF j = i THEN p ELSE IF j = i + 1 THEN RSub(p, q)
                                            ELSE IF j = i + 2 THEN RNeg(q) ELSE Zero),
                    b |-> RMul("2", RSub(RMul(p, d[i]), RMul(q, d[i + 1])))]
      start == CASE per -> [a |-> Row(n, LAMBDA j : IF j = 1 THEN One ELSE IF j = n THEN "-1" ELSE Zero), b |-> Zero]
                 [] bc0.o = 1 -> [a |-> Row(n, LAMBDA j : IF j = 1 THEN One ELSE Zero), b |-> bc0.v]
                 [] bc0.o = 2 -> [a |-> Row(n, LAMBDA j : IF j = 1 THEN "4" ELSE IF j = 2 THEN "2" ELSE Zero),
                                  b |-> RSub(RMul("6", d[1]), RMul(bc0.v, h[1]))]
                 [] n = 2 -> [a |-> <<One, Zero>>, b |-> d[1]]
                 [] n = 3 /\ bc1.o = 3 -> flat(1)
                 [] OTHER -> nak(1)
      end == CASE per -> [a |-> Row(n, LAMBDA j : IF j = 1 THEN RDiv("4", h[1]) ELSE IF j = 2 THEN RDiv("2", h[1])
                                                  ELSE IF j = n - 1 THEN RDiv("2", h[n - 1])
                                                  ELSE IF j = n THEN RDiv("4", h[n - 1]) ELSE Zero),
                          b |-> RMul("6", RAdd(RDiv(d[1], h[1]), RDiv(d[n - 1], h[n - 1])))]
               [] bc1.o = 1 -> [a |-> Row(n, LAMBDA j : IF j = n THEN One ELSE Zero), b |-> bc1.v]
               [] bc1.o = 2 -> [a |-> Row(n, LAMBDA j : IF j = n THEN "4" ELSE IF j = n - 1 THEN "2" ELSE Zero),
                                b |-> RAdd(RMul("6", d[n - 1]), RMul(bc1.v, h[n - 1]))]
               [] n = 2 -> [a |-> <<Zero, One>>, b |-> d[1]]
               [] n = 3 /\ bc0.o = 3 -> flat(2)
               [] OTHER -> nak(n - 2)
      perEnd == IF n = 3   \* j = 2 carries both neighbours
                  THEN [a |-> <<RDiv("4", h[1]), RAdd(RDiv("2", h[1]), RDiv("2", h[2])), RDiv("4", h[2])>>, b |-> end.b]
                  ELSE end
      rows == TLCEval([i \in 1..n |-> IF i = 1 THEN start ELSE IF i = n THEN (IF per THEN perEnd ELSE end) ELSE inner(i)])
      s == RSolve([i \in 1..n |-> rows[i].a], [i \in 1..n |-> <<rows[i].b>>])
      e == RMul(SlopeEps(dt), RMax(VMaxAbs(d), VMaxAbs([i \in 1..n |-> s[i][1]])))
  IN TLCEval([i \in 1..n |-> SV(s[i][1], e)])

Sgn(a) == RCmp(a, Zero)

\* Fritsch-Butland monotone slopes
PchipSlopes(t, y, dt) ==
  LET n == Len(t)
      d == Deltas(t, y)
      e == RMul(SlopeEps(dt), VMaxAbs(d))
      edge(h0, h1, m0, m1) ==
        LET x == RDiv(RSub(RMul(RAdd(RMul("2", h0), h1), m0), RMul(h0, m1)), RAdd(h0, h1))
        IN IF Sgn(x) # Sgn(m0) THEN Zero
           ELSE IF Sgn(m0) # Sgn(m1) /\ RLt(RMul("3", RAbs(m0)), RAbs(x)) THEN RMul("3", m0) ELSE x
      at(i) == IF n = 2 THEN d[1]
               ELSE IF i = 1 THEN edge(H(t, 1), H(t, 2), d[1], d[2])
               ELSE IF i = n THEN edge(H(t, n - 1), H(t, n - 2), d[n - 1], d[n - 2])
               ELSE IF RLe(RMul(d[i - 1], d[i]), Zero) THEN Zero
               ELSE LET w1 == RAdd(RMul("2", H(t, i)), H(t, i - 1))
                        w2 == RAdd(H(t, i), RMul("2", H(t, i - 1)))
                    IN RDiv(RAdd(w1, w2), RAdd(RDiv(w1, d[i - 1]), RDiv(w2, d[i])))
  IN TLCEval([i \in 1..n |-> SV(RRnd(at(i)), e)])

\* Akima: the slopes of the pieces on both sides, weighted by the change of slope further out
AkimaSlopes(t, y, all, dt) ==      \* all: the weights' sums of every coordinate, for the flatness threshold
  LET n == Len(t)
      d == Deltas(t, y)
      e0 == RMul(SlopeEps(dt), VMaxAbs(d))
      b2 == RSub(RMul("2", d[1]), IF n > 2 THEN d[2] ELSE d[1])
      e2 == RSub(RMul("2", d[n - 1]), IF n > 2 THEN d[n - 2] ELSE d[n - 1])
      b1 == RSub(RMul("2", b2), d[1])
      e1 == RSub(RMul("2", e2), d[n - 1])
      m == TLCEval(<<b1, b2>> \o d \o <<e2, e1>>)          \* m[i + 1] and m[i + 2] are beside node i
      f1(i) == RAbs(RSub(m[i + 3], m[i + 2]))
      f2(i) == RAbs(RSub(m[i + 1], m[i]))
      mx == all
      at(i) ==
        LET f == RAdd(f1(i), f2(i))
            mid == RDiv(RAdd(m[i + 1], m[i + 2]), "2")
        IN IF RIsZero(mx) \/ RLt(f, RMul("1/100000", mx))
             \* close to the threshold below which the mean is taken: any mixture
             THEN SV(mid, RAdd(e0, RMul("11/20", RAbs(RSub(m[i + 2], m[i + 1])))))
             ELSE SV(RRnd(RDiv(RAdd(RMul(f1(i), m[i + 1]), RMul(f2(i), m[i + 2])), f)),
                     RAdd(e0, RMul(RMul(SlopeEps(dt), "16"), RDiv(RMul(VMaxAbs(m), RAbs(RSub(m[i + 2], m[i + 1]))), f))))
  IN TLCEval([i \in 1..n |-> at(i)])

AkimaSpread(t, y) ==
  LET n == Len(t)
      d == Deltas(t, y)
  IN VMaxAbs(d)

\* the piecewise cubic with values y and slopes s at the nodes t, at x: value and error bound
PieceAt(t, y, s, x, dt) ==
  LET i == SegOf(t, x)
      n == Len(t)
      h == H(t, i)
      u == RRnd(RDiv(RSub(x, t[i]), h))
      w == RSub(One, u)
      h00 == RMul(RAdd(One, RMul("2", u)), RSqr(w))
      h10 == RMul(u, RSqr(w))
      h01 == RMul(RSqr(u), RSub("3", RMul("2", u)))
      h11 == RMul(RSqr(u), RSub(u, One))
      v == RAdd(RAdd(RMul(h00, y[i]), RMul(h01, y[i + 1])),
                RMul(h, RAdd(RMul(h10, s[i].v), RMul(h11, s[i + 1].v))))
      out == RAdd("2", RMul("2", RAbs(u)))
      big == RMul(out, RMul(out, out))
      smax == RMax(RAbs(s[i].v), RAbs(s[i + 1].v))
      tabs == RMax(RAbs(t[1]), RAbs(t[n]))
      dmax == RMax(smax, RAbs(Delta(t, y, i)))
  IN IF s[i].e = "inf" \/ s[i + 1].e = "inf" THEN SV(Zero, "inf")
     ELSE SV(RRnd(v),
             RRnd(RAdd(RMul(h, RAdd(RMul(RAbs(h10), s[i].e), RMul(RAbs(h11), s[i + 1].e))),
                       RMul(big, RAdd(RMul(ValueEps(dt), RAdd(VMaxAbs(y), RMul(h, dmax))),
                                      RMul("1/100000000000000", RMul(tabs, dmax)))))))

LineAt(t, y, x, dt) ==
  LET i == SegOf(t, x)
      d == RAbs(Delta(t, y, i))
      tabs == RMax(RMax(RAbs(t[1]), RAbs(t[Len(t)])), RAbs(x))
  IN SV(RRnd(LinearAt(t, y, x)),
        RRnd(RAdd(RMul(ValueEps(dt), RAdd(VMaxAbs(y), RMul(d, RAbs(RSub(x, t[i]))))),
                  RMul("1/100000000000000", RMul(d, tabs)))))

(* ------------------------ B-spline of degree k --------------------------- *)
\* knots of the interpolating spline: both ends k + 1 times, and inner data (or midpoints for even k)
Knots(t, k) ==
  LET n == Len(t)
      rep(x) == [i \in 1..(k + 1) |-> x]
      inn == IF k % 2 = 1 THEN SubSeq(t, (k + 1) \div 2 + 1, n - (k + 1) \div 2)
             ELSE [i \in 1..(n - k - 1) |-> RDiv(RAdd(t[k \div 2 + i], t[k \div 2 + i + 1]), "2")]
  IN TLCEval(rep(t[1]) \o inn \o rep(t[n]))

\* the values at x of the n basis polynomials of knot span v
RECURSIVE BasisUp(_, _, _, _, _)
BasisUp(tau, x, prev, d, k) ==
  IF d > k THEN prev
  ELSE LET left(j) == LET q == RSub(tau[j + d], tau[j])
                      IN IF q = Zero \/ prev[j] = Zero THEN Zero ELSE RMul(RDiv(RSub(x, tau[j]), q), prev[j])
           right(j) == LET q == RSub(tau[j + d + 1], tau[j + 1])
                       IN IF q = Zero \/ prev[j + 1] = Zero THEN Zero
                          ELSE RMul(RDiv(RSub(tau[j + d + 1], x), q), prev[j + 1])
       IN BasisUp(tau, x, TLCEval([j \in 1..(Len(prev) - 1) |-> RRnd(RAdd(left(j), right(j)))]), d + 1, k)

Basis(tau, k, n, x) ==
  LET S == {j \in (k + 1)..n : RLt(tau[j], tau[j + 1]) /\ RLe(tau[j], x)}
      span == IF S = {} THEN k + 1 ELSE CHOOSE j \in S : \A i \in S : i <= j
  IN BasisUp(tau, x, TLCEval([j \in 1..(n + k) |-> IF j = span THEN One ELSE Zero]), 1, k)

\* the coefficients of the interpolating spline, all coordinates at once
SplineCoefs(t, pts, k) ==
  LET n == Len(t)
      tau == Knots(t, k)
  IN RSolve([i \in 1..n |-> Basis(tau, k, n, t[i])], pts)

SplineAt(t, coefs, k, x, dt) ==    \* a vector of value and bound per coordinate
  LET n == Len(t)
      b == Basis(Knots(t, k), k, n, x)
      nd == Len(coefs[1])
      mag == VSum([j \in 1..n |-> RAbs(b[j])])
      cm(a) == VMaxAbs([j \in 1..n |-> coefs[j][a]])
      i == SegOf(t, x)
      \* a change of x by a rounding error
      tabs == RMax(RMax(RAbs(t[1]), RAbs(t[n])), RAbs(x))
      hmin == MinSeq([j \in 1..(n - 1) |-> H(t, j)])
  IN TLCEval([a \in 1..nd |->
        SV(RRnd(VSum([j \in 1..n |-> RMul(b[j], coefs[j][a])])),
           RRnd(RMul(RMul(mag, cm(a)), RAdd(RMul("100", SlopeEps(dt)), RMul("1/1000000000000", RDiv(tabs, hmin))))))])

(* ------------------- least squares and smoothing splines ------------------ *)
RECURSIVE PowR(_, _)
PowR(x, k) == IF k = 0 THEN One ELSE RMul(x, PowR(x, k - 1))
RECURSIVE PolyAt(_, _)
PolyAt(c, x) == IF c = <<>> THEN Zero ELSE RAdd(c[1], RMul(x, PolyAt(Tail(c), x)))

\* weighted least squares polynomial of degree k in x - t[1] (squared weights ww)
PolyFit(t, y, ww, k) ==
  LET n == Len(t)
      p(i, a) == PowR(RSub(t[i], t[1]), a)
      A == TLCEval([a \in 1..(k + 1) |-> [b \in 1..(k + 1) |-> VSum([i \in 1..n |-> RMul(ww[i], p(i, a + b - 2))])]])
      B == TLCEval([a \in 1..(k + 1) |-> <<VSum([i \in 1..n |-> RMul(ww[i], RMul(p(i, a - 1), y[i]))])>>])
      s == RSolve(A, B)
  IN TLCEval([a \in 1..(k + 1) |-> s[a][1]])

Resid(t, y, ww, f(_)) == VSum([i \in 1..Len(t) |-> RMul(ww[i], RSqr(RSub(y[i], f(t[i]))))])

\* natural cubic smoothing spline: minimises p Sum w (y - f)^2 + (1 - p) Int f''^2.  Unknown: values g and second
\* derivatives m at the nodes; the first derivative is continuous, and p w (g - y) + (1 - p) jump of f''' = 0.
SmoothNodes(t, y, w, p) ==
  LET n == Len(t)
      h == TLCEval([i \in 1..(n - 1) |-> H(t, i)])
      q == RSub(One, p)
      zero == [j \in 1..(2 * n) |-> Zero]
      row(i) ==      \* columns 1..n: g, n+1..2n: m
        IF i = 1 THEN [zero EXCEPT ![n + 1] = One]
        ELSE IF i = n THEN [zero EXCEPT ![2 * n] = One]
        ELSE [zero EXCEPT ![n + i - 1] = RDiv(h[i - 1], "6"), ![n + i] = RDiv(RAdd(h[i - 1], h[i]), "3"),
                          ![n + i + 1] = RDiv(h[i], "6"),
                          ![i - 1] = RNeg(RDiv(One, h[i - 1])), ![i] = RAdd(RDiv(One, h[i - 1]), RDiv(One, h[i])),
                          ![i + 1] = RNeg(RDiv(One, h[i]))]
      third(r, i, k) == IF i < 1 \/ i > n - 1 THEN r      \* add k times f''' of piece i
                        ELSE [r EXCEPT ![n + i] = RSub(@, RDiv(k, h[i])), ![n + i + 1] = RAdd(@, RDiv(k, h[i]))]
      vrow(i) == third(third([zero EXCEPT ![i] = RMul(p, w[i])], i, q), i - 1, RNeg(q))
      A == TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN row(i) ELSE vrow(i - n)])
      B == TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN <<Zero>> ELSE <<RMul(RMul(p, w[i - n]), y[i - n])>>])
  IN RSolve(A, B)

SmoothAt(t, nodes, y, x, dt) ==
  LET n == Len(t)
      i == SegOf(t, x)
      h == H(t, i)
      g0 == nodes[i][1]
      g1 == nodes[i + 1][1]
      m0 == nodes[n + i][1]
      m1 == nodes[n + i + 1][1]
      a == RSub(x, t[i])
      b == RSub(t[i + 1], x)
      v == RAdd(RDiv(RAdd(RMul(g0, b), RMul(g1, a)), h),
                RDiv(RAdd(RMul(m0, RSub(RDiv(RMul(b, RSqr(b)), h), RMul(h, b))),
                          RMul(m1, RSub(RDiv(RMul(a, RSqr(a)), h), RMul(h, a)))), "6"))
      out == RAdd("2", RMul("2", RAbs(RDiv(a, h))))
      big == RMul(out, RMul(out, out))
  IN SV(RRnd(v), RRnd(RMul(big, RMul(RMul("10", SlopeEps(dt)), RAdd(VMaxAbs(y), RMul(RSqr(h), RMax(RAbs(m0), RAbs(m1))))))))

\* the parameter that csaps chooses by itself: p trace(A) = (1 - p) trace(B)
AutoSmooth(t, w) ==
  LET n == Len(t)
      h(i) == H(t, i)
      ta == VSum([i \in 1..(n - 2) |-> RMul("2", RAdd(h(i), h(i + 1)))])
      tb == VSum([i \in 1..(n - 2) |->
              RAdd(RAdd(RDiv(RSqr(RDiv(One, h(i))), w[i]), RDiv(RSqr(RAdd(RDiv(One, h(i)), RDiv(One, h(i + 1)))), w[i + 1])),
                   RDiv(RSqr(RDiv(One, h(i + 1))), w[i + 2]))])
  IN RDiv(One, RAdd(One, RDiv(ta, RMul("6", tb))))

(* ------------------------------- parameters ------------------------------ *)
BcNames == {"natural", "clamped", "not-a-knot", "periodic"}
Bc(b) == CASE b.name = "natural" -> [o |-> 2, v |-> <<>>]
           [] b.name = "clamped" -> [o |-> 1, v |-> <<>>]
           [] b.name = "not-a-knot" -> [o |-> 3, v |-> <<>>]
           [] b.name = "periodic" -> [o |-> 4, v |-> <<>>]
           [] b.name = "deriv" -> [o |-> b.o, v |-> b.v]
BcOk(b, nd) == b.name \in BcNames \union {"deriv"}
               /\ (b.name = "deriv" => b.o \in {1, 2} /\ Len(b.v) = nd)
BcAt(b, j) == LET r == Bc(b) IN [o |-> r.o, v |-> IF r.v = <<>> THEN Zero ELSE r.v[j]]

Coord(c, j) == [i \in 1..Size(c) |-> c.pts[i][j]]
Methods == {"linear", "cubic", "hermite", "akima", "pchip", "spline", "csaps"}

\* what the creation of the interpolator is to raise
ParErr(ev) ==
  LET p == ev.par
      c == ev.c
      n == Size(c)
      bad == {"InterpolationError"}
      exOk(S) == p.ex \in S
  IN IF ev.method \notin Methods THEN {"NameError"}
     ELSE IF n < 2 THEN {"InterpolationError", "ValueError", "TypeError"}
     ELSE IF p.unknown THEN bad
     ELSE CASE ev.method = "cubic" ->
                 IF ~BcOk(p.bc0, c.nd) \/ ~BcOk(p.bc1, c.nd) \/ (p.bc0.name = "periodic") # (p.bc1.name = "periodic")
                   THEN bad
                 ELSE IF p.bc0.name = "periodic" /\ c.pts[1] # c.pts[n] THEN bad ELSE {}
            [] ev.method = "spline" ->
                 IF p.k < 1 \/ p.k > 5 \/ n <= p.k \/ p.ext \notin 0..3
                    \/ (p.w.h /\ Len(p.w.v) # n) THEN bad ELSE {}
            [] ev.method = "csaps" -> IF p.w.h /\ Len(p.w.v) # n THEN bad ELSE {}
            [] OTHER -> {}

\* the extrapolation rule: "poly" the end pieces go on, "nan", "period", "raise", "zero", "const"
Rule(ev) ==
  LET p == ev.par
  IN CASE ev.method = "linear" -> IF p.ex = "no" THEN "raise" ELSE "poly"
       [] ev.method = "cubic" -> CASE p.ex = "no" -> "nan" [] p.ex = "periodic" -> "period" [] p.ex = "yes" -> "poly"
                                   [] OTHER -> IF p.bc0.name = "periodic" THEN "period" ELSE "poly"
       [] ev.method \in {"hermite", "pchip"} ->
            CASE p.ex = "no" -> "nan" [] p.ex = "periodic" -> "period" [] OTHER -> "poly"
       [] ev.method = "akima" -> "nan"
       [] ev.method = "spline" -> CASE p.ext = 0 -> "poly" [] p.ext = 1 -> "zero" [] p.ext = 2 -> "raise" [] OTHER -> "const"
       [] OTHER -> "poly"

Inside(t, x) == RLe(t[1], x) /\ RLe(x, t[Len(t)])
Wrap(t, x) == LET T == RSub(t[Len(t)], t[1])
                  u == RSub(x, t[1])
              IN RAdd(t[1], RSub(u, RMul(T, RFloor(RDiv(u, T)))))

\* the installed scipy solves the periodic end condition correctly for equally spaced nodes only
Even(t) == Len(t) > 3 /\ \A i \in 2..(Len(t) - 1) : RNear(H(t, i), H(t, 1), RMul("1/100000000000", H(t, 1)))

(* the interpolant of the event, as a table of values and bounds per grid value and coordinate.  <<>> where the *)
(* specification does not determine the values                                                                  *)
Table(ev, v) ==
  LET c == ev.c
      t == ev.t
      n == Size(c)
      nd == c.nd
      p == ev.par
      y == TLCEval([j \in 1..nd |-> Coord(c, j)])
      rule == Rule(ev)
      xs == TLCEval([i \in 1..Len(v) |-> IF rule = "period" THEN Wrap(t, v[i])
                                         ELSE IF Inside(t, v[i]) THEN v[i]
                                         ELSE IF rule = "const" THEN (IF RLt(v[i], t[1]) THEN t[1] ELSE t[n]) ELSE v[i]])
      fr == IF ev.method = "hermite" THEN Frame(c.pts, c.dt).e1 ELSE <<>>
      spread == IF ev.method = "akima"
                  THEN LET mx(j) == LET d == Deltas(t, y[j])
                                    IN RMul("4", VMaxAbs(d))
                       IN MaxSeq([j \in 1..nd |-> mx(j)]) ELSE Zero
      slopes(j) ==
        CASE ev.method = "cubic" /\ p.bc0.name = "periodic" /\ ~Even(t) -> [i \in 1..n |-> SV(Zero, "inf")]
          [] ev.method = "cubic" -> CubicSlopes(t, y[j], BcAt(p.bc0, j), BcAt(p.bc1, j), c.dt)
          [] ev.method = "hermite" -> [i \in 1..n |-> IF fr[i].e = "inf" THEN SV(Zero, "inf") ELSE SV(fr[i].v[j], fr[i].e)]
          [] ev.method = "pchip" -> PchipSlopes(t, y[j], c.dt)
          [] ev.method = "akima" -> AkimaSlopes(t, y[j], spread, c.dt)
      pieces == TLCEval([j \in 1..nd |-> slopes(j)])
      w == IF ev.method \in {"csaps", "spline"} /\ p.w.h THEN p.w.v ELSE [i \in 1..n |-> One]
      coefs == SplineCoefs(t, c.pts, p.k)
      sp == IF ev.method = "csaps" THEN (IF p.auto THEN (IF n = 2 THEN One ELSE RRnd(AutoSmooth(t, w))) ELSE p.smooth) ELSE Zero
      nodes == TLCEval([j \in 1..nd |-> IF n = 2 THEN <<>> ELSE IF sp = Zero THEN PolyFit(t, y[j], w, 1) ELSE SmoothNodes(t, y[j], w, sp)])
      csapsAt(j, x) == IF n = 2 THEN LineAt(t, y[j], x, c.dt)
                       ELSE IF sp = Zero
                         THEN LET z == RRnd(PolyAt(nodes[j], RSub(x, t[1])))
                              IN SV(z, RMul(RMul("10", SlopeEps(c.dt)), RAdd(RAbs(z), VMaxAbs(y[j]))))
                       ELSE IF ~p.auto THEN SmoothAt(t, nodes[j], y[j], x, c.dt)
                       \* the complement of the parameter is only known up to the rounding of the parameter
                       ELSE LET s == SmoothAt(t, nodes[j], y[j], x, c.dt)
                                q == RSub(One, sp)
                                i == SegOf(t, x)
                                out == RAdd("2", RMul("2", RAbs(RDiv(RSub(x, t[i]), H(t, i)))))
                            IN IF RLt(q, "1/1000000000000000") THEN SV(s.v, "inf")
                               ELSE SV(s.v, RRnd(RAdd(s.e, RMul(RMul(out, RMul(out, out)), RMul(VMaxAbs(y[j]), RDiv("1/1125899906842624", q))))))
      ww == [i \in 1..n |-> RSqr(w[i])]
      fits == TLCEval([j \in 1..nd |-> PolyFit(t, y[j], ww, p.k)])
      fp(j) == Resid(t, y[j], ww, LAMBDA x : PolyAt(fits[j], RSub(x, t[1])))
      poly(j, x) == LET z == RRnd(PolyAt(fits[j], RSub(x, t[1])))
                        out == RAdd(One, RDiv(RAbs(RSub(x, t[1])), RSub(t[n], t[1])))
                    IN SV(z, RMul(RMul("1000", SlopeEps(c.dt)), RMul(PowR(out, p.k), RAdd(RAbs(z), VMaxAbs(y[j])))))
      free == SV(Zero, "inf")
      \* rounding decides to which end a value next to a multiple of the period belongs
      jump(i) == /\ rule = "period" /\ ~Inside(t, v[i]) /\ c.pts[1] # c.pts[n]
                 /\ LET T == RSub(t[n], t[1])
                        q == RMul(T, "1/1000000000000")
                    IN RLt(RSub(xs[i], t[1]), q) \/ RLt(RSub(t[n], xs[i]), q)
      fixed(i) == ~Inside(t, v[i]) /\ rule \in {"nan", "zero"}
      rows ==
        CASE ev.method = "linear" -> [i \in 1..Len(v) |-> [j \in 1..nd |-> LineAt(t, y[j], xs[i], c.dt)]]
          [] ev.method \in {"cubic", "hermite", "pchip", "akima"} ->
               [i \in 1..Len(v) |-> [j \in 1..nd |-> PieceAt(t, y[j], pieces[j], xs[i], c.dt)]]
          [] ev.method = "spline" ->
               IF p.smooth = Zero THEN [i \in 1..Len(v) |-> SplineAt(t, coefs, p.k, xs[i], c.dt)]
               ELSE LET easy == TLCEval([j \in 1..nd |-> RLt(fp(j), RMul("99/100", p.smooth))])
                    IN [i \in 1..Len(v) |-> [j \in 1..nd |-> IF easy[j] THEN poly(j, xs[i]) ELSE free]]
          [] ev.method = "csaps" -> [i \in 1..Len(v) |-> [j \in 1..nd |-> csapsAt(j, xs[i])]]
  IN TLCEval([i \in 1..Len(v) |->
        IF jump(i) THEN [j \in 1..nd |-> free]
        ELSE IF fixed(i) THEN [j \in 1..nd |-> SV(IF rule = "zero" THEN Zero ELSE "nan", Zero)] ELSE rows[i]])

\* the methods that reproduce the points
Passes(ev) == ev.method \in {"linear", "cubic", "hermite", "akima", "pchip"}
              \/ (ev.method = "spline" /\ ev.par.smooth = Zero)
              \/ (ev.method = "csaps" /\ ~ev.par.auto /\ ev.par.smooth = One)
=============================================================================
