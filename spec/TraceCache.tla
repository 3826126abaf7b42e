----------------------------- MODULE TraceCache -----------------------------
(* Trace validation of histories of reads (C13).                              *)
EXTENDS Verdict, Cache, Json, IOUtils

CONSTANTS Prop

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* objs: handles, in the order they were obtained; tables: one per curve object
VARIABLES tr, l, objs, tables, cached
vars == <<tr, l, objs, tables, cached>>

RECURSIVE FinMax(_, _), RowsMax(_, _)
FinMax(v, n) == IF n = 0 THEN Zero ELSE RMax(FinMax(v, n - 1), IF RIsFin(v[n]) THEN RAbs(v[n]) ELSE Zero)
RowsMax(m, n) == IF n = 0 THEN Zero ELSE RMax(RowsMax(m, n - 1), FinMax(m[n], Len(m[n])))

Same(o, e) == \/ o = e
              \/ /\ Len(o) = Len(e)
                 /\ LET m == RMul("1/1000000000", RAdd(One, RowsMax(e, Len(e))))
                    IN MNear(o, e, m)

\* a new handle that the event obtains, from handle h
Got(ev, h) ==
  CASE ev.op = "curve" -> CurveH(Len(tables) + 1)
    [] ev.op = "point" -> PointH(h.c, IF h.k = "segment" THEN h.i + ev.i ELSE IF ev.i < 0 THEN ev.i + ev.n ELSE ev.i)
    [] ev.op = "segment" -> SegH(h.c, ev.i)
    [] ev.op = "copy" -> IF h.k = "curve" \/ ev.how \in {"pickle", "deepseg"}
                           THEN [h EXCEPT !.c = Len(tables) + 1] ELSE h
    [] ev.op = "owner" -> CurveH(h.c)

Fails(ev) ==
  IF ev.op = "crash" THEN {Prop \o ": the library failed outside of a checked call: " \o ev.what}
  ELSE IF ev.op = "curve" THEN {}
  ELSE IF ev.op = "outside" THEN ErrFails("C13", ToSet(ev.e), ev.out)
  ELSE LET h == objs[ev.h]
           out == ev.out
       IN IF out.k # "val" THEN {"C13: no value (" \o ev.op \o ")"}
          ELSE CASE ev.op = "read" ->
                      F("C13: " \o ev.q \o " of a " \o h.k, Same(out.v, ReadOf(h, ev.q, tables[h.c])))
                 [] ev.op = "nsegs" -> F("C13: number of segments", out.v = (IF ev.n = 0 THEN 0 ELSE ev.n - 1))
                 [] OTHER ->
                      LET g == Got(ev, h)
                      IN F("C13: kind of a view", out.v.k = g.k)
                         \union F("C13: index of a view", g.k = "curve" \/ out.v.i = g.i)
                         \union F("C13: curve of a view", (ev.op = "copy" /\ g.c > Len(tables)) \/ out.v.c = g.c)
                         \union F("C13: points of a view",
                                  CASE g.k = "curve" -> TRUE
                                    [] g.k = "point" -> out.v.pts = <<tables[h.c]["data"][g.i + 1]>>
                                    [] g.k = "segment" -> out.v.pts = <<tables[h.c]["data"][g.i + 1], tables[h.c]["data"][g.i + 2]>>
                                                          /\ out.v.ends = <<g.i, g.i + 1>>)
                         \union F("C13: a copy equals its original", ev.op # "copy" \/ ev.eq)

Init == tr \in 1..Len(Traces) /\ l = 0 /\ objs = <<>> /\ tables = <<>> /\ cached = <<>>

Next ==
  /\ l < Len(Traces[tr])
  /\ LET ev == Traces[tr][l + 1]
         bad == Fails(ev)
         good == ev.op \in {"curve"} \/ (ev.op \notin {"crash", "outside"} /\ ev.out.k = "val")
         obtains == good /\ ev.op \in {"curve", "point", "segment", "copy", "owner"}
         g == Got(ev, IF ev.op = "curve" THEN CurveH(0) ELSE objs[ev.h])
     IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", tr, l + 1, ev.op, bad>>))
        /\ objs' = IF obtains THEN Append(objs, g) ELSE objs
        /\ tables' = IF obtains /\ g.c > Len(tables) THEN Append(tables, IF ev.op = "curve" THEN ev.ref ELSE tables[objs[ev.h].c])
                     ELSE tables
        /\ cached' = IF obtains /\ g.c > Len(cached) THEN Append(cached, {})
                     ELSE IF good /\ ev.op = "read" THEN [cached EXCEPT ![objs[ev.h].c] = @ \union Computes(objs[ev.h], ev.q)]
                     ELSE cached
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars
TypeOk == /\ Len(cached) = Len(tables)
          /\ \A i \in 1..Len(objs) : objs[i].c \in 1..Len(tables)
          /\ \A i \in 1..Len(cached) : \A q \in cached[i] : Needs(q) \subseteq cached[i]
=============================================================================
