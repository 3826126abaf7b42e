------------------------------ MODULE SmoothMC ------------------------------
(* Every window of up to W points, with every boundary rule, and every small    *)
(* Savitzky-Golay filter, on curves whose coordinates are the unit impulses: the *)
(* smoothed curve is the matrix of the filter.  Laws of these matrices, and the  *)
(* calls, to be made on the real code.                                          *)
EXTENDS Smooth, Json

CONSTANTS N, W, SgN, SgW             \* largest curve and window, of both methods

VARIABLES x                          \* the call
vars == <<x>>

Pars(name) == CASE name = "gaussian" -> {"1", "5/2"} [] name = "exponential" -> {"2"} [] name = "kaiser" -> {"0", "5"}
                [] OTHER -> {"0"}
SgModes == {"mirror", "constant", "nearest", "interp", "wrap"}

None == [method |-> "", name |-> "", a |-> "0", size |-> 0, k |-> 0, d |-> 0, delta |-> "1", mode |-> "", n |-> 0]
Init == x = None
Next ==
  /\ x.method = ""
  /\ \/ \E name \in WindowNames \ {"hanning", "ones"}, size \in 1..W, mode \in BoundaryModes, n \in 1..N :
          \E a \in Pars(name) :
             x' = [None EXCEPT !.method = "window", !.name = name, !.a = a, !.size = size, !.mode = mode, !.n = n]
     \/ \E size \in 1..SgW, mode \in SgModes, n \in 1..SgN :
          \E k \in 0..size, d \in 0..3, delta \in {"1", "1/2"} :
             /\ k <= 5 /\ (delta = "1" \/ d > 0)
             /\ (size % 2 = 0 => k = 0 /\ d = 0 /\ n = 1) /\ (k = size => d = 0 /\ n = 1)      \* rejected
             /\ x' = [None EXCEPT !.method = "savgol", !.size = size, !.k = k, !.d = d, !.delta = delta, !.mode = mode,
                                  !.n = n]
Spec == Init /\ [][Next]_vars

Tiny == "1/1000000000000000000000000"
Win == TLCEval(WindowOf([name |-> x.name, a |-> x.a], x.size))
WSum == VSum(Win)
Regular == RLt("1/1000", WSum)
Wanted == x.method # "" /\ (x.method = "window" => Regular)
Emit == ~Wanted \/ PrintT("BEH " \o ToJson(x))

Rejected == x.method = "savgol" /\ SavgolErr(x.n, x.size, x.k, x.mode)
Filtered(y) == IF x.method = "window" THEN WindowSmooth(y, Win, x.mode, Zero)
               ELSE Savgol(y, x.size, x.k, x.d, x.delta, x.mode, Zero)
Unit(j) == TLCEval([i \in 1..x.n |-> IF i = j THEN One ELSE Zero])
Matrix == TLCEval([j \in 1..x.n |-> TLCEval(Filtered(Unit(j)))])           \* by columns
Poly(p) == TLCEval([i \in 1..x.n |-> PowR(RMul(x.delta, RInt(i)), p)])
PolyD(p, d) == TLCEval([i \in 1..x.n |-> IF d > p THEN Zero
                                         ELSE RMul(RInt(Falling(p, d)), PowR(RMul(x.delta, RInt(i)), p - d))])

WindowLaws ==
  (x.method = "window" /\ Regular) =>
    LET m == Matrix
        n == x.n
        w == Win
    IN \* the window is symmetric and, but for flattop, not negative
       /\ \A i \in 1..x.size : RNear(w[i], w[x.size + 1 - i], Tiny) /\ (x.name # "flattop" => RLe(RNeg(Tiny), w[i]))
       \* constants are preserved
       /\ x.mode # "constant" => \A i \in 1..n : RNear(VSum([j \in 1..n |-> m[j][i]]), One, Tiny)
       \* a window of odd size does not know the direction
       /\ x.size % 2 = 1 => \A i, j \in 1..n : RNear(m[j][i], m[n + 1 - j][n + 1 - i], Tiny)
       \* linear
       /\ LET y == TLCEval([i \in 1..n |-> RInt(i * i - 3)])
          IN VNear(Filtered(y), [i \in 1..n |-> VSum([j \in 1..n |-> RMul(y[j], m[j][i])])], Tiny)
       \* a window of one point changes nothing
       /\ x.size = 1 => \A i, j \in 1..n : m[j][i] = Unit(j)[i]
       \* shifts of a periodic curve
       /\ x.mode = "wrap" => \A i, j \in 1..n : RNear(m[j][i], m[1 + (j % n)][1 + (i % n)], Tiny)

SavgolLaws ==
  (x.method = "savgol" /\ ~Rejected) =>
    LET n == x.n
        h == x.size \div 2
    IN \* polynomials up to the degree are reproduced or differentiated, inside and, fitted, at the edges
       /\ \A p \in 0..x.k : LET f == TLCEval(Filtered(Poly(p)))
                            IN \A i \in 1..n : (x.mode = "interp" \/ (i > h /\ i <= n - h))
                                                 => RNear(f[i], PolyD(p, x.d)[i], "1/1000000000000000000")
       /\ x.d = 0 /\ x.mode \notin {"constant"} => \A i \in 1..n : RNear(Filtered(Poly(0))[i], One, Tiny)
       \* derivatives of odd order change sign with the direction
       /\ LET y == TLCEval([i \in 1..n |-> RInt((i * i * i) % 7)])
              r == TLCEval(Filtered([i \in 1..n |-> y[n + 1 - i]]))
              f == TLCEval(Filtered(y))
          IN \A i \in 1..n : RNear(r[n + 1 - i], IF x.d % 2 = 1 THEN RNeg(f[i]) ELSE f[i], "1/1000000000000000000")
       /\ x.d > x.k => \A i \in 1..n : RNear(Filtered(Poly(2))[i], Zero, Tiny)
=============================================================================
