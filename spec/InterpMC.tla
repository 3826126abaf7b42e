------------------------------ MODULE InterpMC ------------------------------
(* Every curve of up to N points on a small lattice, every method with a choice *)
(* of parameters: the laws of the interpolants, and the calls.                   *)
EXTENDS Interp, Json

CONSTANTS N, S, Times, Meths, Grids_

VARIABLES x                          \* [pts, t: "" | name of a parameter vector, method, par, g]
vars == <<x>>

(* ------------------------------- parameters ------------------------------ *)
NoW == [h |-> FALSE, v |-> <<>>]
Named(b) == [name |-> b, o |-> 2, v |-> <<>>]
P0 == [unknown |-> FALSE, ex |-> "default", bc0 |-> Named("natural"), bc1 |-> Named("natural"), k |-> 3, ext |-> 0,
       smooth |-> "0", auto |-> FALSE, w |-> NoW]
Bcs == {Named("natural"), Named("clamped"), Named("not-a-knot"), [name |-> "deriv", o |-> 1, v |-> <<"1", "-1/2">>],
        [name |-> "deriv", o |-> 2, v |-> <<"1/2", "2">>]}
Weights(n) == [i \in 1..n |-> IF i = 2 THEN "2" ELSE "1"]
PeriodicBc == [P0 EXCEPT !.bc0 = Named("periodic"), !.bc1 = Named("periodic")]
Closed(pts) == Len(pts) > 2 /\ pts[1] = pts[Len(pts)]
GoodPars(m, pts) ==
  LET n == Len(pts)
  IN CASE m = "linear" -> {[P0 EXCEPT !.ex = e] : e \in {"default", "no"}}
       [] m = "cubic" -> {[P0 EXCEPT !.bc0 = a, !.bc1 = b] : a, b \in Bcs}
                         \union {[P0 EXCEPT !.ex = e] : e \in {"yes", "no", "periodic"}}
                         \union (IF Closed(pts) THEN {PeriodicBc} ELSE {})
       [] m = "hermite" -> {[P0 EXCEPT !.ex = e] : e \in {"default", "no", "periodic"}}
       [] m = "pchip" -> {[P0 EXCEPT !.ex = e] : e \in {"default", "no"}}
       [] m = "akima" -> {P0}
       [] m = "spline" -> {[P0 EXCEPT !.k = k, !.ext = e] : k \in 1..(IF n > 5 THEN 5 ELSE n - 1), e \in 0..3}
       [] m = "csaps" -> {[P0 EXCEPT !.smooth = s, !.w = w] : s \in {"0", "1", "1/2"}, w \in {NoW, [h |-> TRUE, v |-> Weights(n)]}}
                         \union {[P0 EXCEPT !.smooth = "1", !.auto = TRUE]}
\* one good choice, and what is to be rejected
SomePars(m, pts) ==
  LET n == Len(pts)
      dflt == [P0 EXCEPT !.k = IF n > 3 THEN 3 ELSE 1, !.smooth = IF m = "csaps" THEN "1" ELSE "0"]
  IN {dflt, [dflt EXCEPT !.unknown = TRUE]}
     \union CASE m = "cubic" -> {[P0 EXCEPT !.bc0 = Named("foo")], [P0 EXCEPT !.bc1 = [name |-> "deriv", o |-> 1, v |-> <<"1">>]],
                                 PeriodicBc}
              [] m = "spline" -> {[P0 EXCEPT !.k = n], [P0 EXCEPT !.k = 0], [dflt EXCEPT !.w = [h |-> TRUE, v |-> Weights(n + 1)]]}
              [] m = "csaps" -> {[dflt EXCEPT !.w = [h |-> TRUE, v |-> Weights(n + 1)]]}
              [] OTHER -> {}

(* ---------------------------------- curves -------------------------------- *)
TimeOf(name, n) == CASE name = "even" -> [i \in 1..n |-> RInt(i - 1)]
                     [] name = "uneven" -> SubSeq(<<"-1", "0", "2", "5/2", "4", "6", "7">>, 1, n)

Init == x = [pts |-> <<>>, t |-> "", method |-> "", par |-> P0, g |-> ""]
Next ==
  /\ x.method = ""
  /\ \/ /\ Len(x.pts) < N
        /\ \E p \in [1..2 -> {ToString(i) : i \in 0..S}] :
             /\ IF x.pts = <<>> THEN TRUE ELSE x.pts[Len(x.pts)] # p
             /\ x' = [x EXCEPT !.pts = Append(@, p)]
     \/ /\ Len(x.pts) > 1
        /\ \E tm \in Times, m \in Meths, g \in Grids_ :
             \E p \in IF Grids_ = {"probe"} THEN GoodPars(m, x.pts) ELSE SomePars(m, x.pts) :
                x' = [x EXCEPT !.t = tm, !.method = m, !.par = p, !.g = g]
Spec == Init /\ [][Next]_vars

Emit == x.method = "" \/ PrintT("BEH " \o ToJson([x EXCEPT !.t = IF x.t = "" THEN <<>> ELSE TimeOf(x.t, Len(x.pts))]))

(* ----------------------------------- laws --------------------------------- *)
Ev(pts, t, m, p) == [c |-> [nd |-> 2, pts |-> pts, par |-> TRUE, t |-> t, dt |-> "float64"], t |-> t, method |-> m, par |-> p]
Tiny == "1/100000000000000000000000000000000000000000"
\* the nodes, points between them and outside
Probe(t) == LET n == Len(t)
            IN TLCEval(<<RSub(t[1], "3/4")>>
                 \o [i \in 1..(3 * n - 2) |-> LET j == (i + 2) \div 3
                                                  f == (i + 2) % 3
                                              IN IF f = 0 THEN t[j] ELSE RAdd(t[j], RMul(IF f = 1 THEN "1/4" ELSE "2/3", H(t, j)))]
                 \o <<RAdd(t[n], Half)>>)
Tab(ev, v) == TLCEval(Table(ev, v))
Same2(a, b) == a.e = "inf" \/ b.e = "inf" \/ a.v = b.v \/ (RIsFin(a.v) /\ RIsFin(b.v) /\ RNear(a.v, b.v, Tiny))
Homog(b) == b.name # "deriv"
Sound == x.method # "" /\ x.t # "" /\ ~x.par.unknown

InterpLaws ==
  (Sound /\ x.g = "probe") =>
    LET n == Len(x.pts)
        pts == x.pts
        t == TLCEval(TimeOf(x.t, n))
        m == x.method
        p == x.par
        ev == Ev(pts, t, m, p)
        v == Probe(t)
        tab == Tab(ev, v)
        rule == Rule(ev)
        In == {i \in 1..Len(v) : Inside(t, v[i]) /\ (rule # "period" \/ v[i] # t[n])}
        All == IF rule \in {"zero", "period", "const"} THEN In ELSE 1..Len(v)
        agree(A, f(_), g(_)) == \A i \in A : \A j \in {1, 2} : Same2(f(i)[j], g(i)[j])
        shift == <<"3", "-2">>
        homog == Homog(p.bc0) /\ Homog(p.bc1)
        linear == m \in {"linear", "spline", "csaps"} \/ (m = "cubic" /\ homog)
        neg(s) == TLCEval([i \in 1..Len(s) |-> RNeg(s[Len(s) + 1 - i])])
        rev(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
        flip(b) == IF b.name = "deriv" /\ b.o = 1 THEN [b EXCEPT !.v = [j \in 1..2 |-> RNeg(b.v[j])]] ELSE b
        q == [p EXCEPT !.bc0 = flip(p.bc1), !.bc1 = flip(p.bc0), !.w = IF p.w.h THEN [h |-> TRUE, v |-> rev(p.w.v)] ELSE p.w]
        other(m2, p2) == LET tb == Tab(Ev(pts, t, m2, p2), v) IN agree(In, LAMBDA i : tab[i], LAMBDA i : tb[i])
    IN \* through the nodes
       /\ Passes(ev) => \A i \in In : \A k \in 1..n : (v[i] = t[k] /\ (rule # "period" \/ k < n)) =>
                           \A j \in {1, 2} : Same2(tab[i][j], SV(pts[k][j], Zero))
       \* translation
       /\ LET tb == Tab(Ev(TLCEval([i \in 1..n |-> VAdd(pts[i], shift)]), t, m, p), v)
          IN agree(All, LAMBDA i : tb[i], LAMBDA i : [j \in {1, 2} |-> IF RIsFin(tab[i][j].v)
                                                                        THEN SV(RAdd(tab[i][j].v, shift[j]), tab[i][j].e) ELSE tab[i][j]])
       \* linear in the points
       /\ (linear /\ rule # "nan") =>
            LET r == rev(pts)
                tb == Tab(Ev(r, t, m, p), v)
                ts == Tab(Ev(TLCEval([i \in 1..n |-> VAdd(pts[i], VScale("2", r[i]))]), t, m, p), v)
            IN agree(All, LAMBDA i : ts[i], LAMBDA i : [j \in {1, 2} |-> SV(RAdd(tab[i][j].v, RMul("2", tb[i][j].v)), Zero)])
       \* the unit of the parameter
       /\ (homog /\ m # "hermite" /\ ~(m = "csaps" /\ p.smooth = Half)) =>
            LET tb == Tab(Ev(pts, TLCEval([i \in 1..n |-> RAdd(RMul("2", t[i]), One)]), m, p),
                          TLCEval([i \in 1..Len(v) |-> RAdd(RMul("2", v[i]), One)]))
            IN agree(All, LAMBDA i : tab[i], LAMBDA i : tb[i])
       \* the other direction
       /\ LET tb == Tab(Ev(rev(pts), neg(t), m, q), neg(v))
          IN agree({i \in All : rule # "period" \/ \A k \in 1..n : v[i] # t[k]}, LAMBDA i : tab[i], LAMBDA i : tb[Len(v) + 1 - i])
       \* between the values of the ends of the piece
       /\ m \in {"linear", "pchip"} =>
            \A i \in In : LET k == SegOf(t, v[i]) IN \A j \in {1, 2} :
               /\ RLe(RMin(pts[k][j], pts[k + 1][j]), RAdd(tab[i][j].v, Tiny))
               /\ RLe(RSub(tab[i][j].v, Tiny), RMax(pts[k][j], pts[k + 1][j]))
       \* straight lines
       /\ (homog /\ m # "hermite" /\ p.bc0.name \notin {"clamped", "periodic"} /\ p.bc1.name # "clamped") =>
            LET l(i) == <<RAdd(RMul("2", i), One), RNeg(i)>>
                tb == Tab(Ev(TLCEval([i \in 1..n |-> l(t[i])]), t, m, p), v)
            IN agree(IF rule = "poly" THEN 1..Len(v) ELSE In, LAMBDA i : tb[i], LAMBDA i : [j \in {1, 2} |-> SV(l(v[i])[j], Zero)])
       \* different methods that are the same one
       /\ (m = "spline" /\ p.k = 1) => other("linear", P0)
       /\ (m = "spline" /\ p.k = 3) => other("cubic", [P0 EXCEPT !.bc0 = Named("not-a-knot"), !.bc1 = Named("not-a-knot")])
       /\ (m = "spline" /\ p.k = 2 /\ n = 3) => other("cubic", [P0 EXCEPT !.bc0 = Named("not-a-knot"), !.bc1 = Named("not-a-knot")])
       /\ (m = "csaps" /\ p.smooth = One /\ ~p.auto) => other("cubic", P0)
       /\ (n = 2 /\ m \in {"pchip", "akima"}) => other("linear", P0)
=============================================================================
