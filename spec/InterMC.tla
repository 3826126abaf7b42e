------------------------------- MODULE InterMC ------------------------------
(* Every pair of small curves of a lattice, and every small curve with itself:    *)
(* laws of what intersecting them must report, and the calls.                     *)
EXTENDS Inter, Json

CONSTANTS Dim, Side, NA, NB, NS,     \* lattice, points of the two curves, points of a curve with itself
          Tols, Etols                \* tolerances ("" is the default)

VARIABLES x                          \* [a, b, self, tol, etol, done]
vars == <<x>>

Grid == [1..Dim -> {ToString(i) : i \in 0..(Side - 1)}]
Init == x = [a |-> <<>>, b |-> <<>>, self |-> FALSE, tol |-> "", etol |-> "", done |-> FALSE]
Next ==
  /\ ~x.done
  /\ \/ /\ x.b = <<>>
        /\ Len(x.a) < (IF NA > NS THEN NA ELSE NS)
        /\ \E p \in Grid : x' = [x EXCEPT !.a = Append(@, p)]
     \/ /\ Len(x.a) <= NA /\ Len(x.b) < NB
        /\ \E p \in Grid : x' = [x EXCEPT !.b = Append(@, p)]
     \/ /\ Len(x.a) > 0 /\ (x.b # <<>> \/ Len(x.a) <= NS)
        /\ \E t \in Tols, e \in Etols :
             x' = [x EXCEPT !.self = (x.b = <<>>), !.b = IF x.b = <<>> THEN x.a ELSE x.b, !.tol = t, !.etol = e, !.done = TRUE]
Spec == Init /\ [][Next]_vars
Emit == ~x.done \/ PrintT("BEH " \o ToJson(x))

Segs(p) == TLCEval([i \in 1..(IF p = <<>> THEN 0 ELSE Len(p) - 1) |-> <<p[i], p[i + 1]>>])
Rv(p) == TLCEval([i \in 1..Len(p) |-> p[Len(p) + 1 - i]])
Pairs(a, b) == {q \in (1..Len(a)) \X (1..Len(b)) : InterE(a[q[1]], b[q[2]]).k \in {"exact", "overlap"}}
Near(a, b, t) == {q \in (1..Len(a)) \X (1..Len(b)) : CloserTri(a[q[1]], b[q[2]], t) = "T"}

InterLaws ==
  x.done =>
    LET a == Segs(x.a)
        b == Segs(x.b)
        m == Len(a)
        t == IF x.tol = "" THEN "1/100000" ELSE x.tol
        P == Pairs(a, b)
        Q == Near(a, b, t)
        E == TLCEval([i \in 1..m |-> [j \in 1..Len(b) |-> InterE(a[i], b[j])]])
    IN \* everything is decided on the lattice, and by the distance
       /\ \A i \in 1..m, j \in 1..Len(b) :
            /\ E[i][j].k \in {"none", "exact", "overlap"}
            /\ (E[i][j].k = "none") = (DistSq(a[i], b[j]) # Zero)
            /\ CloserTri(a[i], b[j], t) # "U"
       /\ P \subseteq Q
       \* neither the order of the curves nor their directions matter
       /\ {<<q[2], q[1]>> : q \in Pairs(b, a)} = P
       /\ {<<m + 1 - q[1], q[2]>> : q \in Pairs(Segs(Rv(x.a)), b)} = P
       /\ {<<q[2], q[1]>> : q \in Near(b, a, t)} = Q
       \* neighbours of one curve always meet
       /\ x.self => \A i \in 1..(m - 1) : <<i, i + 1>> \in P
       \* clusters are a partition of the records
       /\ LET cs == TLCEval([k \in 1..m |-> a[k]])
              C == Clusters(cs, IF x.etol = "" THEN "1/1000" ELSE x.etol)
          IN UNION C = 1..m /\ \A c, d \in C : c = d \/ c \cap d = {}
=============================================================================
