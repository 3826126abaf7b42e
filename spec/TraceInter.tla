----------------------------- MODULE TraceInter -----------------------------
(* Recorded intersections of segments and curves (C20 - C22).                 *)
EXTENDS TraceFn, Inter

SG(ev) == <<ev.s[1], ev.s[2]>>
RG(ev) == <<ev.r[1], ev.r[2]>>

\* the fields of one record agree with each other; o is the record as observed
Coherent(o) ==
  /\ o.truth = (o.type # "NONE")
  /\ o.infotype = o.type
  /\ o.same                                   \* it names the operands themselves
  /\ CASE o.type = "NONE" -> o.kind = "none" /\ o.point = <<>> /\ o.iseg = <<>>
       [] o.type = "EXACT" -> o.kind = "point" /\ o.point = o.seg[1] /\ o.iseg = <<o.seg[1], o.seg[1]>>
       [] OTHER -> o.kind = "segment" /\ o.iseg = o.seg
                   /\ VNear(o.point, Mid(o.seg), RMul(RMul("16", EPS), SegMax(o.seg)))

(* -------------------------------- segments ------------------------------- *)
SegsFails(ev) ==
  IF ev.out.k # "val" THEN {"C20: intersecting two segments fails"}
  ELSE LET e == InterE(SG(ev), RG(ev))
       IN F("C20: segments intersect exactly when they share a point",
            \A i \in 1..Len(ev.out.v) : RecordOk(e, SG(ev), RG(ev), ev.out.v[i].type, ev.out.v[i].seg))
          \union F("C20: the record is coherent", \A i \in 1..Len(ev.out.v) : Coherent(ev.out.v[i]))

AlmostSegsFails(ev) ==
  IF ev.out.k # "val" THEN {"C22: intersecting two segments fails"}
  ELSE LET s == SG(ev)
           r == RG(ev)
           o == ev.out.v
           tri == CloserTri(s, r, ev.tol)
       IN F("C22: segments closer than the tolerance", TriOk(tri, o.type # "NONE"))
          \union F("C22: the record is coherent", Coherent(o))
          \union F("C22: the connection is the shortest segment", o.type # "ALMOST" \/ Connects(s, r, o.seg))
          \union F("C22: corrected overlap", o.type = "NONE" \/ IF ev.correct THEN CorrectedOk(s, r, <<>>, o.type, o.seg, ev.ptol)
                                                                ELSE o.type = "ALMOST")

\* a record made by hand: the kind of data belongs to the type
Belongs(type, kind) ==
  CASE type = "NONE" -> kind = "none"
    [] type = "EXACT" -> kind = "point"
    [] OTHER -> kind = "segment"

RecordFails(ev) ==
  IF ~Belongs(ev.type, ev.kind) THEN ErrFails("C20", {"ValueError"}, ev.out)
  ELSE IF ev.out.k # "val" THEN {"C20: a proper record is refused"}
  ELSE F("C20: the record is coherent",
         Coherent(ev.out.v) /\ ev.out.v.type = ev.type /\ ev.out.v.other = "" /\ ev.out.v.kind = ev.kind
         /\ ev.out.v.seg = ev.seg)

(* --------------------------------- curves -------------------------------- *)
A(ev) == SegmentsOf(ev.a)
B(ev) == SegmentsOf(ev.b)
Recs(ev) == ev.out.v

SoloSame(o) ==       \* as the intersection of that pair alone
  o.type = o.solo.type /\ LET t == RMul("1/1000000000", RAdd(One, SegMax(o.seg)))
                          IN VNear(o.seg[1], o.solo.seg[1], t) /\ VNear(o.seg[2], o.solo.seg[2], t)

Placed(ev, o) == o.i \in 1..Len(A(ev)) /\ o.j \in 1..Len(B(ev))

CurvesFails(ev) ==
  IF ev.out.k # "val" THEN {"C21: intersecting curves fails"}
  ELSE LET a == A(ev)
           b == B(ev)
           rs == Recs(ev)
           got == {<<rs[k].i, rs[k].j>> : k \in 1..Len(rs)}
           E == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |->
                   IF PairWanted(i, j, ev.self) THEN InterE(a[i], b[j]) ELSE NoInter]])
       IN IF \E k \in 1..Len(rs) : ~Placed(ev, rs[k]) THEN {"C21: a record names the segments of the curves"}
          ELSE F("C21: one record per intersecting pair, in order", Ordered(rs))
               \union F("C21: every intersecting pair is reported",
                        \A i \in 1..Len(a), j \in 1..Len(b) :
                          E[i][j].k \in {"overlap", "exact"} => <<i, j>> \in got)
               \union F("C21: only intersecting pairs are reported",
                        \A i \in 1..Len(a), j \in 1..Len(b) :
                          (E[i][j].k = "none" \/ ~PairWanted(i, j, ev.self)) => <<i, j>> \notin got)
               \union F("C21: each record is the intersection of its pair",
                        \A k \in 1..Len(rs) :
                          /\ rs[k].type # "NONE" /\ Coherent(rs[k]) /\ SoloSame(rs[k])
                          /\ (PairWanted(rs[k].i, rs[k].j, ev.self) =>
                                RecordOk(E[rs[k].i][rs[k].j], a[rs[k].i], b[rs[k].j], rs[k].type, rs[k].seg)))

AlmostFails(ev) ==
  IF ev.out.k # "val" THEN {"C22: intersecting curves fails"}
  ELSE LET a == A(ev)
           b == B(ev)
           rs == ev.out.v.base
           got == {<<rs[k].i, rs[k].j>> : k \in 1..Len(rs)}
           T == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |->
                   IF PairWanted(i, j, ev.self) THEN CloserTri(a[i], b[j], ev.tol) ELSE "F"]])
           cs == [k \in 1..Len(rs) |-> rs[k].seg]
           ex == ev.out.v.extra
           co == ev.out.v.corr
           both == ev.out.v.both
           Corrected(xs, idx) ==
             Len(xs) = Len(idx) /\
             \A k \in 1..Len(xs) :
               LET q == rs[idx[k]] IN xs[k].i = q.i /\ xs[k].j = q.j /\ Coherent(xs[k])
                                      /\ CorrectedOk(a[q.i], b[q.j], q.seg, xs[k].type, xs[k].seg, ev.ptol)
       IN IF \E k \in 1..Len(rs) : ~Placed(ev, rs[k]) THEN {"C22: a record names the segments of the curves"}
          ELSE F("C22: one record per pair, in order", Ordered(rs))
               \union F("C22: exactly the pairs closer than the tolerance",
                        \A i \in 1..Len(a), j \in 1..Len(b) : TriOk(T[i][j], <<i, j>> \in got))
               \union F("C22: the shortest connections",
                        \A k \in 1..Len(rs) : rs[k].type = "ALMOST" /\ Coherent(rs[k])
                                              /\ Connects(a[rs[k].i], b[rs[k].j], rs[k].seg))
               \union F("C22: the same answer for two segments as for curves",
                        \A k \in 1..Len(rs) : rs[k].solo.type = "ALMOST" \/ T[rs[k].i][rs[k].j] = "U")
               \union F("C22: removing extra intersections keeps the shortest of each cluster",
                        \A k \in 1..Len(ex) : ex[k] > 0 /\ ExtraOk(cs, ev.etol, ex))
               \union F("C22: removing extra intersections of none keeps none", (Len(ex) = 0) = (Len(rs) = 0))
               \union F("C22: correcting overlaps", Corrected(co, [k \in 1..Len(rs) |-> k]))
               \union F("C22: correcting overlaps after removing extra intersections", Corrected(both, ex))

InterFails(ev) ==
  CASE ev.op = "segs" -> SegsFails(ev)
    [] ev.op = "record" -> RecordFails(ev)
    [] ev.op = "asegs" -> AlmostSegsFails(ev)
    [] ev.op = "curves" -> CurvesFails(ev)
    [] ev.op = "acurves" -> AlmostFails(ev)
    [] ev.op = "reject" -> ErrFails(ev.prop, ToSet(ev.expected), ev.out)
=============================================================================
