----------------------------- MODULE RegistryMC -----------------------------
(* Every history of Depth operations on the registries in Which.               *)
EXTENDS Registry, Json

CONSTANTS Depth, Which, Names, Objs

VARIABLES st, hist
vars == <<st, hist>>

Op(op, r, n, o, d, p) == [op |-> op, reg |-> r, name |-> n, obj |-> o, default |-> d, params |-> p]

Ops == {Op("register", r, n, o, FALSE, FALSE) : r \in Which, n \in Names, o \in Objs}
       \union {Op("use", r, n, "-", FALSE, FALSE) : r \in Which, n \in Names}
       \union {Op("lookup", r, n, "-", FALSE, FALSE) : r \in Which, n \in Names}
       \union (IF "intersect" \notin Which THEN {}
               ELSE {Op("register", "intersect", n, o, TRUE, FALSE) : n \in Names, o \in Objs}
                    \union {Op("setdefault", "intersect", n, "-", FALSE, FALSE) : n \in Names}
                    \union {Op("usedefault", "intersect", "-", "-", FALSE, FALSE)}
                    \union {Op("useinstance", "intersect", "-", "A", FALSE, p) : p \in BOOLEAN})

Init == st = StInit /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : /\ st' = Step(st, o).st
                                            /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars

Emit == Len(hist) < Depth \/ PrintT("BEH " \o ToJson(hist))
Laws == UniqueNames(st) /\ DefaultKnown(st) /\ KindsOk(st)
\* entries are never changed or removed; a failed operation changes nothing
Stable == [][/\ \A r \in Regs : SubSeq(st'.regs[r], 1, Len(st.regs[r])) = st.regs[r]
             /\ (Step(st, hist'[Len(hist')]).out.k = "err" => st' = st)]_vars
=============================================================================
