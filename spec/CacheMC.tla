------------------------------ MODULE CacheMC ------------------------------
(* Every order of Depth reads of the quantities Qs through a curve, a point of   *)
(* it, a copy made when it is first read, and a point of the copy.               *)
EXTENDS Cache, Json, TLC

CONSTANTS Depth, Qs, Objs

VARIABLES cached, hist                                 \* cached: object -> quantities computed so far
vars == <<cached, hist>>

Owner(o) == IF o \in {"curve", "point"} THEN "curve" ELSE "copy"

Init == cached = [x \in {"curve", "copy"} |-> {}] /\ hist = <<>>
Read(o, q) ==
  \* a copy begins with nothing computed, or (pickled) with what the curve had: either way the values are the same
  /\ cached' = [cached EXCEPT ![Owner(o)] = @ \union {q} \union Needs(q)]
  /\ hist' = Append(hist, [o |-> o, q |-> q])
Next == Len(hist) < Depth /\ \E o \in Objs, q \in Qs : Read(o, q)
Spec == Init /\ [][Next]_vars

Emit == Len(hist) < Depth \/ PrintT("BEH " \o ToJson(hist))
\* computed quantities are closed under what they need, and only grow
Closed == \A x \in DOMAIN cached : \A q \in cached[x] : Needs(q) \subseteq cached[x]
Grows == [][\A x \in DOMAIN cached : cached[x] \subseteq cached'[x]]_vars
=============================================================================
