---------------------------- MODULE TraceRegistry ----------------------------
(* Trace validation of histories of registrations, default changes, lookups and  *)
(* uses (C23).  Every event carries the lists and the default after it.         *)
EXTENDS Registry, Json, IOUtils, SequencesExt

CONSTANTS Prop

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l, st
vars == <<tr, l, st>>

F(name, ok) == IF ok THEN {} ELSE {name}

Fails(ev) ==
  IF ev.op = "crash" THEN {Prop \o ": the library failed outside of a checked call: " \o ev.what}
  ELSE LET s == Step(st, ev)
           out == ev.out
       IN (IF s.out.k = "err" THEN F("C23: should be rejected with a documented error", out.k = "err" /\ s.out.e \intersect ToSet(out.e) # {})
           ELSE IF out.k # "ok" THEN {"C23: a correct operation failed"}
           ELSE F("C23: the method that is handed out or used", out.v = s.out.v))
          \union F("C23: registered names in order", \A r \in Regs : ev.lists[r] = NamesOf(s.st.regs[r]))
          \union F("C23: default method", ev.dflt = s.st.default)
          \union F("C23: parameters reach the method", ev.paramsok)
          \union F("C23: a warning exactly when parameters are ignored",
                   ev.op # "useinstance" \/ out.k # "ok" \/ ev.warned = ev.params)

Init == tr \in 1..Len(Traces) /\ l = 0 /\ st = StInit

Next ==
  /\ l < Len(Traces[tr])
  /\ LET ev == Traces[tr][l + 1]
         bad == Fails(ev)
     IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", tr, l + 1, ev.op, bad>>))
        /\ st' = IF ev.op = "crash" THEN st ELSE Step(st, ev).st
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars
TypeOk == UniqueNames(st) /\ DefaultKnown(st) /\ KindsOk(st)
=============================================================================
