-------------------------------- MODULE GenMC -------------------------------
(* Every generator with every choice of its constants from a few values, by       *)
(* position or by name: laws of the curves, and the calls.                        *)
EXTENDS Gen, Json

CONSTANTS Names,                     \* the generators
          Cs, Starts, Stops, Ns      \* constants, ranges, numbers of points

VARIABLES x                          \* [name, par (parameter -> value), pos (given by position), done]
vars == <<x>>

\* the parameters in order
Order(n) ==
  CASE n = "arc" -> <<"t_start", "t_stop", "p_count", "r", "c">>
    [] n = "lemniscate_of_bernoulli" -> <<"t_start", "t_stop", "p_count", "c">>
    [] n = "archimedean_spiral" -> <<"t_start", "t_stop", "p_count", "a", "b">>
    [] n = "euler_spiral" -> <<"t_start", "t_stop", "p_count">>
    [] n = "lissajous" -> <<"t_start", "t_stop", "p_count", "a_ampl", "b_ampl", "a", "b", "d">>
    [] n = "helix" -> <<"t_start", "t_stop", "p_count", "a", "b">>
    [] OTHER -> <<"t_start", "t_stop", "z_start", "z_stop", "p_count">>
Values(k) == CASE k \in {"t_start", "z_start"} -> Starts [] k \in {"t_stop", "z_stop"} -> Stops [] OTHER -> Cs

Init == \E n \in Names : x = [name |-> n, par |-> <<>>, count |-> 0, pos |-> 0, done |-> FALSE]

\* par: one entry per parameter seen so far, "" where it is left out; the count apart
Next ==
  /\ ~x.done
  /\ LET o == Order(x.name)
         k == Len(x.par) + 1
     IN IF k > Len(o)
          THEN \E pos \in {0, Len(o)} :
                 /\ pos = 0 \/ \A i \in 1..Len(o) : x.par[i] # ""
                 /\ x' = [x EXCEPT !.pos = pos, !.done = TRUE]
        ELSE IF o[k] = "p_count"
          THEN \E n \in Ns : x' = [x EXCEPT !.count = n, !.par = Append(@, "n")]
        ELSE \E v \in Values(o[k]) \cup {""} : x' = [x EXCEPT !.par = Append(@, v)]
Spec == Init /\ [][Next]_vars
Emit == ~x.done \/ PrintT("BEH " \o ToJson(x))

Pars ==
  LET d == GenDefaults(x.name)
      o == Order(x.name)
      at(k) == CHOOSE i \in 1..Len(o) : o[i] = k
  IN TLCEval([k \in DOMAIN d |-> IF k = "p_count" THEN x.count ELSE IF x.par[at(k)] = "" THEN d[k] ELSE x.par[at(k)]])

(* ---------------------------------- laws --------------------------------- *)
Eq(a, b) == RLe(RAbs(RSub(a, b)), RMul("1/10000000000000000000", RAdd(One, RAbs(a))))
R2(q) == RAdd(RSqr(q[1]), RSqr(q[2]))

PointLaw(name, p, t, i) ==
  LET q == GenPoint(name, p, t, i)
  IN CASE name = "arc" -> Eq(R2(<<RSub(q[1], p.c), RSub(q[2], p.c)>>), RSqr(p.r))
                          /\ LET q2 == GenPoint(name, p, RAdd(t, TwoPi), i) IN Eq(q[1], q2[1]) /\ Eq(q[2], q2[2])
       [] name = "lemniscate_of_bernoulli" ->
            Eq(RSqr(R2(q)), RMul(RMul("2", RSqr(p.c)), RSub(RSqr(q[1]), RSqr(q[2]))))
       [] name = "archimedean_spiral" -> Eq(R2(q), RSqr(RAdd(p.a, RMul(p.b, t))))
       [] name = "euler_spiral" -> LET m == GenPoint(name, p, RNeg(t), i) IN Eq(m[1], RNeg(q[1])) /\ Eq(m[2], RNeg(q[2]))
       [] name = "lissajous" -> RLe(RAbs(q[1]), RAbs(p.a_ampl)) /\ RLe(RAbs(q[2]), RAbs(p.b_ampl))
       [] name = "helix" -> Eq(R2(q), RSqr(p.a)) /\ Eq(q[3], RMul(p.b, t))
       [] OTHER -> Eq(R2(q), RSqr(RAdd(RSqr(q[3]), One)))

GenLaws ==
  (x.done /\ x.count > 0) =>
    LET p == Pars
        n == x.count
        t == Linspace(p.t_start, p.t_stop, n)
    IN /\ DOMAIN p = {Order(x.name)[i] : i \in 1..Len(Order(x.name))}
       /\ Len(t) = n
       /\ t[1] = p.t_start /\ (n > 1 => t[n] = p.t_stop)
       /\ \A i \in 2..(n - 1) : RSub(t[i + 1], t[i]) = RSub(t[2], t[1])
       /\ \A i \in 1..n : PointLaw(x.name, p, t[i], i)
       \* the ends of the range do not depend on the number of points
       /\ n > 2 => LET p2 == [p EXCEPT !.p_count = 2]
                   IN GenPoint(x.name, p2, p.t_stop, 2) = GenPoint(x.name, p, p.t_stop, n)
=============================================================================
