------------------------------ MODULE TracePlot ------------------------------
(* Trace validation of histories of plots (C28).  Every event reports all axes   *)
(* that exist after it.                                                         *)
EXTENDS Verdict, Plot, Json, IOUtils

CONSTANTS Prop

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l, axs, plots
vars == <<tr, l, axs, plots>>

\* observed axes b are the specified axes a; colours are judged with room for the rounding of the value
\* the drawing library widens empty colour limits
LimOk(b, a) == b = a \/ (a[1] = a[2] /\ RLe(b[1], a[1]) /\ RLe(a[2], b[2]))
SameColl(b, a) ==
  /\ b.k = a.k
  /\ CASE a.k = "segs" -> b.segs = a.segs /\ b.vals = a.vals /\ LimOk(b.lim, a.lim) /\ b.cmap = a.cmap
                          /\ \A x \in DOMAIN a.style : x = "lw" => b.style[x] = a.style[x]
       [] a.k = "marks" -> b.pts = a.pts /\ Len(b.cols) = Len(a.cols)
                           /\ \A i \in 1..Len(a.cols) : \E z \in ToSet(b.cols[i]), w \in ToSet(a.cols[i]) : RLe(RAbs(RSub(z, w)), One)
       [] a.k = "arrows" -> b.pts = a.pts /\ MNear(b.dirs, a.dirs, "1/1000000")
SameLine(b, a) == b.pts = a.pts /\ \A x \in DOMAIN a.style : x = "none" \/ b.style[x] = a.style[x]

AxesFails(b, a) ==
  F("C28: lines drawn", Len(b.lines) = Len(a.lines) /\ \A i \in 1..Len(a.lines) : SameLine(b.lines[i], a.lines[i]))
  \union F("C28: coloured segments, markers and arrows drawn",
           Len(b.colls) = Len(a.colls) /\ \A i \in 1..Len(a.colls) : SameColl(b.colls[i], a.colls[i]))
  \union F("C28: colour bars", b.bars = a.bars)
  \union F("C28: 2-d or 3-d axes", b.d3 = a.d3)

\* what was drawn before is still there
Kept(b, a) ==
  /\ Len(b.lines) >= Len(a.lines) /\ \A i \in 1..Len(a.lines) : SameLine(b.lines[i], a.lines[i])
  /\ Len(b.colls) >= Len(a.colls) /\ \A i \in 1..Len(a.colls) : SameColl(b.colls[i], a.colls[i])
  /\ b.d3 = a.d3

NewOne(ev) == NewAxes(ev.c.nd = 3)

PlotFails(ev, n) ==
  LET fresh == n = Len(axs) + 1
      e == PlotErr(ev.c, ev.o, ev.target, IF fresh THEN FALSE ELSE axs[n].d3)
      out == ev.out
  IN F("C28: plotting changed the curve", ev.same)
     \union
     IF e # {} THEN ErrFails("C28", e, out)
                    \union F("C28: a rejected plot changed what was drawn",
                             Len(ev.axs) = Len(axs) /\ \A i \in 1..Len(axs) :
                                IF e = {"NotImplementedError"} /\ i = n THEN Kept(ev.axs[i], axs[i])
                                ELSE AxesFails(ev.axs[i], axs[i]) = {})
     ELSE IF out.k # "val" THEN {"C28: no plot"}
     ELSE F("C28: the axes of the plot", out.v = n)
          \union F("C28: the figure can be drawn", ev.drawn)
          \union IF Len(ev.axs) # Len(axs) + (IF fresh THEN 1 ELSE 0) THEN {"C28: number of axes"}
                 ELSE AxesFails(ev.axs[n], Draw(IF fresh THEN NewOne(ev) ELSE axs[n], ev.c, ev.o))
                      \union F("C28: what other plots drew", \A i \in 1..Len(axs) : i = n \/ AxesFails(ev.axs[i], axs[i]) = {})

Fails(ev) == IF ev.op = "crash" THEN {Prop \o ": the library failed outside of a checked call: " \o ev.what}
             ELSE IF ev.op = "axes" THEN {}                          \* made without the library
             ELSE PlotFails(ev, TargetOf(ev.target, axs, plots))

Init == tr \in 1..Len(Traces) /\ l = 0 /\ axs = <<>> /\ plots = <<>>

Next ==
  /\ l < Len(Traces[tr])
  /\ LET ev == Traces[tr][l + 1]
         bad == Fails(ev)
     IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", tr, l + 1, ev.op, bad>>))
        /\ axs' = IF ev.op = "crash" THEN axs ELSE ev.axs            \* go on from what is observed
        /\ plots' = IF ev.op = "plot" /\ ev.out.k = "val" THEN Append(plots, ev.out.v) ELSE plots
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars
=============================================================================
