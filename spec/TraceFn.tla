------------------------------ MODULE TraceFn -------------------------------
(* Trace validation of calls that do not change any object: a trace is a       *)
(* sequence of observed calls, each of which the specification must allow.     *)
(* A family of functions gives EvFails(ev), the clauses that ev violates.      *)
EXTENDS Verdict, Json, IOUtils

CONSTANTS Prop, EvFails(_)

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l
vars == <<tr, l>>

Wanted(x) == Prop = "ALL" \/ SubSeq(x, 1, 3) = Prop

Fails(ev) ==
  IF ev.op = "crash" THEN {Prop \o ": the library failed outside of a checked call: " \o ev.what}
  ELSE EvFails(ev)

Init == tr \in 1..Len(Traces) /\ l = 0

Next ==
  /\ l < Len(Traces[tr])
  /\ LET ev == Traces[tr][l + 1]
         bad == {x \in Fails(ev) : Wanted(x)}
     IN (IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", tr, l + 1, ev.op, bad>>))
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars
=============================================================================
