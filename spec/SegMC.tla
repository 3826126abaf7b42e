-------------------------------- MODULE SegMC -------------------------------
(* Every segment of a lattice with every list of parameters and points, every     *)
(* other segment, and every small set of points: laws of segments, and the calls. *)
EXTENDS Geom, Json, SequencesExt

CONSTANTS Dim, Side, Off, Ts,        \* the lattice (shifted), parameters of points
          L,                         \* parameters or points per call
          M,                         \* points of a set
          Kinds                      \* "point", "t", "basic", "eq", "pointpred", "isplane", "angle", "short"

VARIABLES x
vars == <<x>>

Grid == [1..Dim -> {ToString(i - Off) : i \in 0..(Side - 1)}]
Segs(P) == {<<p, q>> : p \in P, q \in P}
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init == \E p \in Grid, q \in Grid : x = [op |-> "start", s |-> <<p, q>>]
Call(r) == x' = [s |-> x.s] @@ r
Next ==
  /\ x.op = "start"
  /\ \/ "point" \in Kinds /\ \E ts \in Lists(Ts, L) : Call([op |-> "point", ts |-> ts])
     \/ "t" \in Kinds /\ x.s[1] # x.s[2] /\ \E ps \in Lists(Grid, L) : ps # <<>> /\ Call([op |-> "t", ps |-> ps])
     \/ "basic" \in Kinds /\ Call([op |-> "basic"])
     \/ "eq" \in Kinds /\ \E r \in Segs(Grid) : Call([op |-> "eq", r |-> r])
     \/ "pointpred" \in Kinds /\ \E p \in Grid : Call([op |-> "pointpred", p |-> p])
     \/ "isplane" \in Kinds /\ \E ps \in Lists(Grid, M) : Call([op |-> "isplane", ps |-> x.s \o ps])
     \/ "angle" \in Kinds /\ \E p \in Grid, nd \in {0, 2} : Call([op |-> "angle", r |-> <<x.s[2], p>>, nd |-> nd])
     \/ "short" \in Kinds /\ \E p \in Grid : Call([op |-> "short", p |-> p])
Spec == Init /\ [][Next]_vars
Emit == x.op = "start" \/ PrintT("BEH " \o ToJson(x))

\* the parameter of a point on the line
Par(s, p) == RDiv(VDot(VSub(p, s[1]), Dir(s)), Len2(s))
OnLine(s, p) == CollinearX(<<s[1], s[2], p>>)

SegLaws ==
  LET s == x.s
      e == Rev(s)
  IN CASE x.op = "point" ->
            \A i \in 1..Len(x.ts) :
              /\ At(s, x.ts[i]) = At(e, RSub(One, x.ts[i]))
              /\ OnLine(s, At(s, x.ts[i]))
              /\ s[1] = s[2] \/ Par(s, At(s, x.ts[i])) = x.ts[i]
       [] x.op = "t" ->
            \A i \in 1..Len(x.ps) :
              /\ OnLine(s, x.ps[i]) = (At(s, Par(s, x.ps[i])) = x.ps[i])
              /\ CollinearPS(x.ps[i], s) = (IF OnLine(s, x.ps[i]) THEN "T" ELSE "F")
              /\ Par(e, x.ps[i]) = RSub(One, Par(s, x.ps[i]))
       [] x.op = "basic" -> Rev(e) = s /\ Len2(s) = Len2(e) /\ (Len2(s) = Zero) = (s[1] = s[2])
       [] OTHER -> TRUE

PlaneLaws ==
  CASE x.op = "isplane" ->
         LET ps == x.ps
         IN /\ CoplanarTri(ps) = (IF CoplanarX(ps) THEN "T" ELSE "F")
            /\ \A i \in 1..Len(ps) : CoplanarX(<<ps[i]>> \o ps)
                                       = CoplanarX(ps)                        \* repeated points
            /\ CoplanarX(Reverse(ps)) = CoplanarX(ps)
            /\ CollinearX(ps) => CoplanarX(ps)
            /\ \A i \in 1..Len(ps) : CoplanarX(ps) => CoplanarX(SubSeq(ps, 1, i))
    [] x.op = "pointpred" ->
         /\ CoplanarTri(<<x.s[1], x.s[2], x.p>>) = "T"
         /\ CollinearPS(x.p, x.s) = (IF OnLine(x.s, x.p) THEN "T" ELSE "F")
         /\ CollinearPS(x.p, Rev(x.s)) = CollinearPS(x.p, x.s)
    [] OTHER -> TRUE

ShortLaws ==
  x.op = "short" =>
    LET s == x.s
        d == DistPS2(x.p, s)
    IN /\ d = DistPS2(x.p, Rev(s))
       /\ DistSq(s, <<x.p, x.p>>) = d
       /\ \A t \in Ts : (RLe(Zero, t) /\ RLe(t, One)) => RLe(d, VNorm2(VSub(x.p, At(s, t))))
       /\ (d = Zero) => OnLine(s, x.p)
=============================================================================
