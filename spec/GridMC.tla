------------------------------- MODULE GridMC -------------------------------
(* Every interpolation grid of small parameters for every curve of up to N       *)
(* points with rational chords: the laws of grids, and the grids, to be made by  *)
(* the real code.                                                                *)
EXTENDS Interp, Json

CONSTANTS N, K, Times                \* points of the curve, grid points

VARIABLES x
vars == <<x>>

Step == {<<"1", "0">>, <<"0", "-2">>, <<"3", "4">>, <<"0", "0">>}
TimeOf(name, n) == CASE name = "even" -> [i \in 1..n |-> RInt(i - 1)]
                     [] name = "uneven" -> SubSeq(<<"-1", "0", "2", "5/2", "4", "6", "7">>, 1, n)

Fi(v) == [ty |-> "int", v |-> v]
Ff(v) == [ty |-> "float", v |-> v]
Other == [ty |-> "other", v |-> "0"]
Lens == {"1/2", "1", "3/2", "2", "13/4"}
Uniform == {[t |-> "uniform", kind |-> "point", fill |-> Fi(RInt(i))] : i \in (-1)..K}
           \union {[t |-> "uniform", kind |-> "length", fill |-> Ff(v)] : v \in Lens}
           \union {[t |-> "uniform", kind |-> "length", fill |-> Fi(v)] : v \in {"1", "2", "3"}}
           \union {[t |-> "uniform", kind |-> "point", fill |-> Ff("3")], [t |-> "uniform", kind |-> "point", fill |-> Other],
                   [t |-> "uniform", kind |-> "length", fill |-> Other], [t |-> "uniform", kind |-> "count", fill |-> Fi("3")]}
Speed == {[t |-> "speed", n |-> i] : i \in 0..(K + 2)}
Inner == {[t |-> "uniform", kind |-> "point", fill |-> Fi(v)] : v \in {"1", "2", "3"}}
         \union {[t |-> "uniform", kind |-> "length", fill |-> Ff("1")], [t |-> "speed", n |-> 3]}
Ex(in, kind, b, a) == [t |-> "extrap", inner |-> in, kind |-> kind, before |-> b, after |-> a]
Extrap == {Ex(in, "point", Fi(b), Fi(a)) : in \in Inner, b, a \in {"0", "1", "3"}}
          \union {Ex(in, "length", Ff(b), Ff(a)) : in \in Inner, b, a \in {"0", "1/2", "2", "5/4"}}
          \union {Ex(in, "length", Fi("1"), Fi("2")) : in \in Inner}
          \union {Ex([t |-> "uniform", kind |-> "point", fill |-> Fi("3")], k[1], k[2], k[3]) :
                    k \in {<<"point", Ff("1"), Fi("1")>>, <<"point", Fi("1"), Ff("1")>>, <<"length", Other, Ff("1")>>,
                           <<"length", Ff("1"), Other>>, <<"both", Fi("1"), Fi("1")>>, <<"point", Other, Fi("0")>>}}

Init == x = [pts |-> <<>>, t |-> "", g |-> [t |-> "none"]]
Next ==
  /\ x.g.t = "none"
  /\ \/ /\ Len(x.pts) < N
        /\ IF x.pts = <<>> THEN x' = [x EXCEPT !.pts = <<<<"1", "-1">>>>]
           ELSE \E s \in Step : x' = [x EXCEPT !.pts = Append(@, VAdd(@[Len(@)], s))]
     \/ \E tm \in Times : \E g \in Uniform \union Speed \union Extrap : x' = [x EXCEPT !.t = tm, !.g = g]
Spec == Init /\ [][Next]_vars

M == Len(x.pts)
Par == x.t # ""
\* nothing to interpolate on: all the points coincide
Flat == ~Par /\ M > 1 /\ \A i \in 2..M : x.pts[i] = x.pts[1]
Emit == x.g.t = "none" \/ Flat \/ PrintT("BEH " \o ToJson([pts |-> x.pts, t |-> IF Par THEN TimeOf(x.t, M) ELSE <<>>, g |-> x.g]))

Tiny == "1/1000000000000000000000000000000"
Equal(v) == \A i \in 3..Len(v) : RNear(RSub(v[i], v[i - 1]), RSub(v[2], v[1]), Tiny)
T == IF Par THEN TimeOf(x.t, M) ELSE CumLengths(x.pts)
C == [nd |-> 2, pts |-> x.pts, par |-> Par, t |-> IF Par THEN TimeOf(x.t, M) ELSE <<>>, dt |-> "float64"]
GridLaws ==
  (x.g.t # "none" /\ ~Flat) =>
    LET g == x.g
        t == TLCEval(T)
        e == TLCEval(GridOf(g, C, t))
        pos(f) == RLt(Zero, f.v)
    IN /\ (M < 2 => e.k = "err")
       /\ e.k = "grids" => e.g # {}
       /\ (e.k = "grids" /\ (Par \/ g.t = "uniform" \/ \A i \in 2..M : x.pts[i] # x.pts[i - 1])) =>
          \A v \in e.g :
            /\ Increasing(v)
            /\ (g.t # "extrap" /\ Len(v) > 1) => v[1] = t[1] /\ v[Len(v)] = t[M] /\ Covers(v, t)
            /\ (g.t = "uniform" \/ (g.t = "speed" /\ Par)) => Equal(v)
            /\ (g.t = "uniform" /\ g.kind = "point") => ToString(Len(v)) = g.fill.v
            \* the requested chord length, as nearly as a whole number of pieces allows
            /\ (g.t = "uniform" /\ g.kind = "length") =>
                  RLe(RAbs(RSub(RMul(RInt(Len(v) - 1), g.fill.v), ArcLen(x.pts))), RAdd(RDiv(g.fill.v, "2"), Tiny))
            /\ g.t = "speed" => Len(v) = g.n
            \* sampled as often as the curve itself, the nodes
            /\ (g.t = "speed" /\ ~Par /\ g.n = M) => VNear(v, t, Tiny)
            /\ (g.t = "speed" /\ ~Par /\ g.n = 2 * M - 1) => \A i \in 1..M : RNear(v[2 * i - 1], t[i], Tiny)
            /\ g.t = "extrap" =>
                 LET in == GridOf(g.inner, C, t)
                 IN \E w \in in.g : \E b \in 0..(Len(v) - Len(w)) :
                      /\ SubSeq(v, b + 1, b + Len(w)) = w
                      /\ (g.kind = "point" => RInt(b) = g.before.v /\ RInt(Len(v) - b - Len(w)) = g.after.v)
                      /\ Equal(SubSeq(v, 1, b + 1)) /\ Equal(SubSeq(v, b + Len(w), Len(v)))
                      /\ (g.inner.t = "uniform" => Equal(v))
                      /\ (g.kind = "length" /\ b > 0) =>
                           LET d == RSub(v[2], v[1]) IN RLe(RAbs(RSub(RMul(RInt(b), d), g.before.v)), RAdd(RDiv(d, "2"), Tiny))
=============================================================================
