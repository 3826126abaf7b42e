------------------------------ MODULE Registry ------------------------------
(* The method registries: interpolation, smoothing and intersection methods, and *)
(* the default intersection method.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Regs == {"interp", "smooth", "intersect"}

BuiltIn == [interp |-> <<"linear", "cubic", "hermite", "akima", "pchip", "spline", "csaps">>,
            smooth |-> <<"savgol", "window">>,
            intersect |-> <<"exact", "almost">>]

\* a registry is a sequence of [name, obj], in the order of registration; a built-in method is its own object
RegInit(r) == [i \in 1..Len(BuiltIn[r]) |-> [name |-> BuiltIn[r][i], obj |-> BuiltIn[r][i]]]
StInit == [regs |-> [r \in Regs |-> RegInit(r)], default |-> "exact"]

NamesOf(reg) == [i \in 1..Len(reg) |-> reg[i].name]
Knows(reg, n) == \E i \in 1..Len(reg) : reg[i].name = n
ObjOf(reg, n) == reg[CHOOSE i \in 1..Len(reg) : reg[i].name = n].obj

\* objects of the wrong kind: not a class, or a class of another kind.  (Any callable is a smoothing method.)
WrongKind(r, obj) == r # "smooth" /\ obj \in {"class", "instance"}

(* Outcomes: [k |-> "ok", v |-> the object handed out or used, or the name]  or  [k |-> "err", e |-> {...}] *)
Ok(v) == [k |-> "ok", v |-> v]
Er(S) == [k |-> "err", e |-> S]

FailureOf(r) == CASE r = "interp" -> "InterpolationError" [] r = "smooth" -> "SmoothingError" [] r = "intersect" -> "IntersectionError"

\* op: [op, reg, name, obj, default, params]; the result is [out, st]
Step(st, o) ==
  LET reg == st.regs[o.reg]
  IN CASE o.op = "register" ->
            IF Knows(reg, o.name) \/ WrongKind(o.reg, o.obj)
              THEN [out |-> Er((IF Knows(reg, o.name) THEN {"ValueError"} ELSE {})
                               \union (IF WrongKind(o.reg, o.obj) THEN {"TypeError"} ELSE {})), st |-> st]
            ELSE [out |-> Ok(o.obj),
                  st |-> [regs |-> [st.regs EXCEPT ![o.reg] = Append(@, [name |-> o.name, obj |-> o.obj])],
                          default |-> IF o.reg = "intersect" /\ o.default THEN o.name ELSE st.default]]
       [] o.op = "setdefault" ->
            IF ~Knows(st.regs.intersect, o.name) THEN [out |-> Er({"NameError"}), st |-> st]
            ELSE [out |-> Ok("-"), st |-> [st EXCEPT !.default = o.name]]
       [] o.op \in {"lookup", "use"} ->
            [out |-> IF ~Knows(reg, o.name) THEN Er({"NameError"})
                     ELSE IF ObjOf(reg, o.name) = "fails" /\ o.op = "use" THEN Er({FailureOf(o.reg)})
                     ELSE Ok(ObjOf(reg, o.name)), st |-> st]
       [] o.op = "usedefault" ->
            [out |-> IF ObjOf(st.regs.intersect, st.default) = "fails" THEN Er({"IntersectionError"})
                     ELSE Ok(ObjOf(st.regs.intersect, st.default)), st |-> st]
       [] o.op = "useinstance" -> [out |-> IF o.obj = "fails" THEN Er({"IntersectionError"}) ELSE Ok(o.obj), st |-> st]
       [] o.op = "usewrong" -> [out |-> Er({"ValueError"}), st |-> st]
       [] o.op = "list" -> [out |-> Ok("-"), st |-> st]

(* laws *)
UniqueNames(st) == \A r \in Regs : \A i, j \in 1..Len(st.regs[r]) : st.regs[r][i].name = st.regs[r][j].name => i = j
DefaultKnown(st) == Knows(st.regs.intersect, st.default)
KindsOk(st) == \A r \in Regs : \A i \in 1..Len(st.regs[r]) : ~WrongKind(r, st.regs[r][i].obj)
=============================================================================
