------------------------------- MODULE PlotMC -------------------------------
(* All histories of a few plots, over small sets of curves and options: the      *)
(* machine's own laws, and the histories, printed to be played on the real code. *)
EXTENDS Plot, Json, TLC

CONSTANTS Depth, Curves, Opts

VARIABLES axs, plots, hist
vars == <<axs, plots, hist>>

CurveOf(name) == CASE name = "A2" -> [nd |-> 2, pts |-> <<<<"0", "0">>, <<"1", "2">>, <<"3", "1">>>>]
                   [] name = "B2" -> [nd |-> 2, pts |-> <<<<"2", "2">>, <<"0", "1">>, <<"-1", "0">>, <<"1", "5">>>>]
                   [] name = "A3" -> [nd |-> 3, pts |-> <<<<"0", "0", "1">>, <<"1", "2", "0">>, <<"3", "1", "4">>>>]
                   [] name = "A4" -> [nd |-> 4, pts |-> <<<<"0", "0", "1", "1">>, <<"1", "2", "0", "3">>, <<"3", "1", "4", "4">>>>]

\* the quantity does not matter here: the number of the point
OptOf(name, c) == [param |-> IF name \in {"param", "mark"} THEN "cumarclen" ELSE "", marker |-> name = "mark",
                   vals |-> [i \in 1..Len(c.pts) |-> RInt(i)], cmap |-> "plasma", normals |-> name = "normals",
                   dirs |-> c.pts, style |-> <<>>]

Targets == {[k |-> "new", i |-> 0]} \union {[k |-> "given", i |-> i] : i \in 1..Len(axs)}
           \union {[k |-> "chain", i |-> i] : i \in 1..Len(plots)}

Init == axs = <<>> /\ plots = <<>> /\ hist = <<>>

Do(cn, on, t) ==
  LET c == CurveOf(cn)
      o == OptOf(on, c)
      n == TargetOf(t, axs, plots)
      fresh == n = Len(axs) + 1
      e == PlotErr(c, o, t, IF fresh THEN FALSE ELSE axs[n].d3)
      base == IF fresh THEN Append(axs, NewAxes(c.nd = 3)) ELSE axs
  IN \* arrows on 3-d axes are not specified
     /\ ~(o.normals /\ c.nd = 2 /\ ~fresh /\ axs[n].d3)
     /\ axs' = IF e # {} THEN axs ELSE [base EXCEPT ![n] = Draw(@, c, o)]
     /\ plots' = IF e # {} THEN plots ELSE Append(plots, n)
     /\ hist' = Append(hist, [c |-> cn, o |-> on, t |-> t])

Next == Len(hist) < Depth /\ \E cn \in Curves, on \in Opts, t \in Targets : Do(cn, on, t)

Spec == Init /\ [][Next]_vars

Emit == Len(hist) < Depth \/ PrintT("BEH " \o ToJson(hist))

(* laws *)
PlotsOk == \A i \in 1..Len(plots) : plots[i] \in 1..Len(axs)
DimOk == \A i \in 1..Len(axs) : \A x \in ToSet(axs[i].lines) : \A p \in ToSet(x.pts) : Len(p) = IF axs[i].d3 THEN 3 ELSE 2
OneEach == LET Sum[i \in 0..Len(axs)] == IF i = 0 THEN 0 ELSE Sum[i - 1] + Len(axs[i].lines) + Len(axs[i].bars)
           IN Sum[Len(axs)] = Len(plots)
Grows == [][\A i \in 1..Len(axs) : /\ axs'[i].lines # axs[i].lines => Len(axs'[i].lines) = Len(axs[i].lines) + 1
                                   /\ SubSeq(axs'[i].lines, 1, Len(axs[i].lines)) = axs[i].lines
                                   /\ SubSeq(axs'[i].colls, 1, Len(axs[i].colls)) = axs[i].colls]_vars
=============================================================================
