------------------------------- MODULE Smooth -------------------------------
(* Smoothing filters on one coordinate y of a curve: the moving average with a *)
(* window, and the Savitzky-Golay filter, with every boundary rule.            *)
EXTENDS Interp

(* ------------------------------- boundaries ------------------------------ *)
BoundaryModes == {"reflect", "constant", "nearest", "mirror", "wrap"}

FMod(a, b) == a - b * (a \div b)                       \* \div rounds down

\* the index that stands for index i (1..n inside) under a boundary rule, 0 for the constant
Fold(i, n, mode) ==
  IF i >= 1 /\ i <= n THEN i
  ELSE LET z == i - 1
       IN CASE mode = "constant" -> 0
            [] mode = "nearest" -> IF i < 1 THEN 1 ELSE n
            [] mode = "wrap" -> FMod(z, n) + 1
            [] mode = "reflect" -> LET m == FMod(z, 2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m
            [] mode = "mirror" -> IF n = 1 THEN 1
                                  ELSE LET m == FMod(z, 2 * n - 2) IN IF m < n THEN m + 1 ELSE 2 * n - 1 - m

Ext(y, i, mode, cval) == LET k == Fold(i, Len(y), mode) IN IF k = 0 THEN cval ELSE y[k]

(* --------------------------- the moving average --------------------------- *)
\* convolution with the weights w, the middle of the window at the point
Convolve(y, w, mode, cval) ==
  LET W == Len(w)
  IN [i \in 1..Len(y) |->
        RRnd(VSum([j \in 1..W |-> RMul(w[j], Ext(y, i + (W \div 2) - (j - 1), mode, cval))]))]

Normed(w) == LET s == VSum(w) IN TLCEval([i \in 1..Len(w) |-> RRnd(RDiv(w[i], s))])

WindowSmooth(y, w, mode, cval) == Convolve(y, Normed(w), mode, cval)

(* --------------------------------- windows -------------------------------- *)
\* symmetric windows of M values, k = 0 .. M-1
CosSum(M, a) ==
  [i \in 1..M |->
    VSum([j \in 1..Len(a) |-> RMul(a[j], RMul(IF j % 2 = 1 THEN One ELSE "-1",
        RCos(RDiv(RMul(RMul(RInt(2 * (j - 1)), RPi), RInt(i - 1)), RInt(M - 1)))))])]

RECURSIVE BesselFrom(_, _, _, _)
BesselFrom(q, k, term, sum) ==                       \* Sum (x^2/4)^k / (k!)^2
  IF k > 60 THEN sum
  ELSE LET t == RRnd(RDiv(RMul(term, q), RInt(k * k))) IN BesselFrom(q, k + 1, t, RAdd(sum, t))
BesselI0(x2) == BesselFrom(RDiv(x2, "4"), 1, One, One)  \* of the square of the argument

\* w is [name, a]: a is the parameter of the windows that have one
WindowOf(w, M) ==
  IF M = 1 THEN <<One>>
  ELSE LET z(i) == RSub(RInt(i - 1), RDiv(RInt(M - 1), "2"))             \* distance from the middle
           u(i) == RAbs(RDiv(RMul("2", z(i)), RInt(M - 1)))               \* 0 in the middle, 1 at the ends
           row(f(_)) == [i \in 1..M |-> f(i)]
       IN CASE w.name \in {"boxcar", "ones"} -> row(LAMBDA i : One)
            [] w.name \in {"hann", "hanning"} -> CosSum(M, <<"1/2", "1/2">>)
            [] w.name = "hamming" -> CosSum(M, <<"27/50", "23/50">>)
            [] w.name = "blackman" -> CosSum(M, <<"21/50", "1/2", "2/25">>)
            [] w.name = "nuttall" -> CosSum(M, <<"3635819/10000000", "4891775/10000000", "1365995/10000000", "106411/10000000">>)
            [] w.name = "blackmanharris" -> CosSum(M, <<"35875/100000", "48829/100000", "14128/100000", "1168/100000">>)
            [] w.name = "flattop" -> CosSum(M, <<"21557895/100000000", "41663158/100000000", "277263158/1000000000",
                                                 "83578947/1000000000", "6947368/1000000000">>)
            [] w.name = "bartlett" -> row(LAMBDA i : RSub(One, u(i)))
            [] w.name = "triang" -> row(LAMBDA i : IF M % 2 = 1 THEN RSub(One, RDiv(RMul("2", RAbs(z(i))), RInt(M + 1)))
                                                   ELSE RSub(One, RDiv(RMul("2", RAbs(z(i))), RInt(M))))
            [] w.name = "cosine" -> row(LAMBDA i : RSin(RDiv(RMul(RPi, RInt(2 * i - 1)), RInt(2 * M))))
            [] w.name = "bohman" -> row(LAMBDA i : IF i = 1 \/ i = M THEN Zero
                                                   ELSE RAdd(RMul(RSub(One, u(i)), RCos(RMul(RPi, u(i)))),
                                                             RDiv(RSin(RMul(RPi, u(i))), RPi)))
            [] w.name = "barthann" -> row(LAMBDA i : RAdd(RSub("62/100", RMul("24/100", u(i))), RMul("38/100", RCos(RMul(RPi, u(i))))))
            [] w.name = "parzen" -> row(LAMBDA i : LET q == RAbs(RDiv(RMul("2", z(i)), RInt(M)))
                                                   IN IF RLe(RMul("4", RAbs(z(i))), RInt(M - 1))
                                                        THEN RAdd(RSub(One, RMul("6", RSqr(q))), RMul("6", RMul(q, RSqr(q))))
                                                      ELSE RMul("2", RMul(RSub(One, q), RSqr(RSub(One, q)))))
            [] w.name = "gaussian" -> row(LAMBDA i : RExp(RNeg(RDiv(RSqr(z(i)), RMul("2", RSqr(w.a))))))
            [] w.name = "exponential" -> row(LAMBDA i : RExp(RNeg(RDiv(RAbs(z(i)), w.a))))
            [] w.name = "kaiser" -> LET d == BesselI0(RSqr(w.a))
                                    IN row(LAMBDA i : RRnd(RDiv(BesselI0(RMul(RSqr(w.a), RSub(One, RSqr(u(i))))), d)))

WindowNames == {"boxcar", "ones", "hann", "hanning", "hamming", "blackman", "nuttall", "blackmanharris", "flattop",
                "bartlett", "triang", "cosine", "bohman", "barthann", "parzen", "gaussian", "exponential", "kaiser"}

(* ----------------------------- Savitzky-Golay ----------------------------- *)
RECURSIVE Falling(_, _)
Falling(a, d) == IF d = 0 THEN 1 ELSE a * Falling(a - 1, d - 1)

\* the d-th derivative of a polynomial (coefficients from the constant on) at x
PolyDer(c, d, x) ==
  IF d >= Len(c) THEN Zero
  ELSE PolyAt([a \in 1..(Len(c) - d) |-> RMul(RInt(Falling(a - 1 + d, d)), c[a + d])], x)

\* least squares polynomial of degree k through W values at 1..W, its d-th derivative at x (spacing delta)
LsDer(v, k, d, delta, x) ==
  LET W == Len(v)
      c == PolyFit([i \in 1..W |-> RInt(i)], v, [i \in 1..W |-> One], k)
  IN RRnd(RDiv(PolyDer(c, d, RSub(x, One)), PowR(delta, d)))

Savgol(y, W, k, d, delta, mode, cval) ==
  LET n == Len(y)
      h == W \div 2
      at(i) == LsDer([j \in 1..W |-> Ext(y, i - h + j - 1, mode, cval)], k, d, delta, RInt(h + 1))
  IN [i \in 1..n |->
        IF mode # "interp" THEN at(i)
        ELSE IF i <= h THEN LsDer([j \in 1..W |-> y[j]], k, d, delta, RInt(i))
        ELSE IF i > n - h THEN LsDer([j \in 1..W |-> y[n - W + j]], k, d, delta, RInt(i - (n - W)))
        ELSE at(i)]

SavgolErr(n, W, k, mode) == \/ W % 2 = 0 \/ W < 1 \/ k >= W \/ k < 0
                            \/ mode \notin {"mirror", "constant", "nearest", "interp", "wrap"}
                            \/ (mode = "interp" /\ W > n)
=============================================================================
