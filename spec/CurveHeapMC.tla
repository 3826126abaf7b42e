----------------------------- MODULE CurveHeapMC ----------------------------
(* Every behaviour of the curve machine of Depth operations on small curves,    *)
(* the operations of the last step chosen by the property.                       *)
EXTENDS CurveHeap, Json

CONSTANTS Prop, Depth, Big       \* Big: size of the largest start curve

VARIABLES heap, hist
vars == <<heap, hist>>

OptI(n) == {NoInt} \union {AnInt(v) : v \in n}
IntX(S) == {[f |-> "int", i |-> i] : i \in S}
SliceX(A, B, S) == {[f |-> "slice", a |-> a, b |-> b, s |-> s] : a \in A, b \in B, s \in S}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
ListX(S, n) == {[f |-> "list", l |-> l] : l \in Seqs(S, n)}
MaskX(n) == {[f |-> "mask", m |-> m] : m \in [1..n -> BOOLEAN]}
Steps == {NoInt} \union {AnInt(v) : v \in {1, 2, 3, -1, -2, -3}}

(* --------------------------------- starts ---------------------------------- *)
R(i) == ToString(i)
\* n different points
LinPt(i, nd) == SubSeq(<<R(i), R((i * i) % 3), R(5 - i), R(2 * i)>>, 1, nd)
LinT(n) == [i \in 1..n |-> R((7 * i) % 5)]
Lin(n, nd, par, dt) == Curve(nd, [i \in 1..n |-> LinPt(i, nd)], par, IF par THEN LinT(n) ELSE <<>>, dt)
Mk(pts, par) == Curve(2, pts, par, IF par THEN LinT(Len(pts)) ELSE <<>>, "float64")

Abc == {<<"0", "1">>, <<"1", "0">>}
Near == <<"1", "1/1073741824">>                          \* coincides with <<1, 0>>
NanPt == <<"nan", "1">>
InfPt == <<"1", "inf">>
Lit == {"0", "1", "-1"}

Starts ==
  CASE Prop = "C02" -> {Lin(2, 2, TRUE, "float64"), Lin(0, 3, FALSE, "float64"), Lin(3, 3, FALSE, "int32")}
    [] Prop = "C03" -> {Lin(n, 2 + (n % 2), TRUE, "float64") : n \in 0..Big} \union {Lin(n, 2, FALSE, "int64") : n \in 0..(Big - 2)}
    [] Prop \in {"C04", "C08", "C01"} -> {Lin(n, 2, TRUE, "float64") : n \in 0..Big} \union {Lin(2, 2, FALSE, "int16")}
    [] Prop = "C05" -> {Lin(n, 2 + (n % 2), TRUE, "float64") : n \in 0..Big} \union {Lin(2, 4, FALSE, "int32")}
    [] Prop = "C06" -> {Mk(s, FALSE) : s \in Seqs(Abc, Big)}
    [] Prop = "C07" -> {Mk(s, Len(s) % 2 = 0) : s \in Seqs(Abc \union {Near, NanPt, InfPt}, Big)}
    [] Prop = "C14" -> {Mk(<<p, <<"5", "7">>, q>>, TRUE) : p \in Lit \X Lit, q \in Lit \X Lit}
                       \union {Curve(3, <<p, q>>, FALSE, <<>>, "float64") : p \in {"0", "1"} \X {"0", "1"} \X {"1"},
                                                                           q \in {"0", "1"} \X {"0", "-1"} \X {"0", "1"}}

(* -------------------------------- operations ------------------------------- *)
One1(nd) == [nd |-> nd, pts |-> <<[i \in 1..nd |-> R(9 - i)]>>, dt |-> "float64"]
PtOp(nd) == One1(nd)
CvOp(nd, n) == [nd |-> nd, pts |-> [k \in 1..n |-> [i \in 1..nd |-> R(10 * k + i)]], dt |-> "float64"]

\* k: how the operand is given
Ins(h, x, o, how) == [op |-> "insert", id |-> Len(h), x |-> x, o |-> o, how |-> how]
InsOps(h, full) ==
  LET c == h[Len(h)]
      n == Size(c)
      pos == IF full THEN (-n - 1)..(n + 1) ELSE {0, n}
  IN UNION {{Ins(h, x, PtOp(c.nd), "point"), Ins(h, x, CvOp(c.nd, 2), "curve")} : x \in IntX(pos)}
     \union (IF full
               THEN {Ins(h, x, CvOp(c.nd, Len(x.l)), "curve") : x \in {y \in ListX((-n)..n, 2) : Len(y.l) > 0}}
                    \union {Ins(h, x, PtOp(c.nd), "point") : x \in {y \in ListX((-n)..n, 2) : Len(y.l) = 2}}
                    \union {Ins(h, x, PtOp(c.nd), "point") : x \in SliceX(OptI({1, -1}), OptI({2, -1}), OptI({2, -1}))}
                    \union {Ins(h, [f |-> "int", i |-> 0], CvOp(c.nd, 0), "curve"),
                            Ins(h, [f |-> "int", i |-> 0], PtOp(c.nd + 1), "point")}
               ELSE {})
DelOps(h, full) ==
  LET n == Size(h[Len(h)])
  IN {[op |-> "delete", id |-> Len(h), x |-> x] :
        x \in IF full THEN IntX((-n - 1)..n) \union ListX((-n)..(n - 1), 2) \union MaskX(n)
                           \union SliceX(OptI({-1, 1, 5}), OptI({-1, 2}), OptI({2, -1}))
                      ELSE IntX({0}) \union SliceX({NoInt}, {NoInt}, {AnInt(2)})}
CatOps(h) == {[op |-> "concat", id |-> i, id2 |-> j] : i, j \in 1..Len(h)}
AppOps(h) == LET nd == h[Len(h)].nd
             IN {[op |-> "append", id |-> Len(h), o |-> PtOp(nd), how |-> "point"],
                 [op |-> "append", id |-> Len(h), o |-> CvOp(nd, 2), how |-> "curve"]}
RevOps(h) == {[op |-> "reverse", id |-> Len(h)]}
FilOps(h) == {[op |-> "unique", id |-> Len(h)], [op |-> "nonsingular", id |-> Len(h)]}
GetOps(h, full) ==
  LET n == Size(h[Len(h)])
  IN {[op |-> "getcurve", id |-> Len(h), x |-> x] :
        x \in IF full THEN SliceX(OptI((-n - 2)..(n + 2)), OptI((-n - 2)..(n + 2)), Steps)
                           \union ListX((-n - 1)..n, 2) \union MaskX(n)
                      ELSE {Back, Sl(1, 9), [f |-> "list", l |-> <<>>]} \union (IF n > 1 THEN {[f |-> "list", l |-> <<1, 0, 1>>]} ELSE {})}
GetInts(h) == LET n == Size(h[Len(h)]) IN {[op |-> "getint", id |-> Len(h), i |-> i] : i \in (-n - 2)..(n + 1)}
Subs(h) == LET n == Size(h[Len(h)])
           IN {[op |-> "subcurve", id |-> Len(h), i |-> i, j |-> j, ep |-> e] : i, j \in (-n)..(n - 1), e \in BOOLEAN}
Vals(c) == {[h |-> FALSE, v |-> <<>>], [h |-> TRUE, v |-> [i \in 1..Size(c) |-> R(20 + i)]],
            [h |-> TRUE, v |-> [i \in 1..(Size(c) + 2) |-> "3"]]}
           \union (IF Size(c) > 0 THEN {[h |-> TRUE, v |-> <<"7">>]} ELSE {})
DimOps(h, full) ==
  LET c == h[Len(h)]
      n == c.nd
  IN {[op |-> "insertdim", id |-> Len(h), axis |-> a, vals |-> v] :
          a \in IF full THEN (-n - 1)..(n + 1) ELSE {0, -1}, v \in IF full THEN Vals(c) ELSE {NoVals}}
     \union {[op |-> "appenddim", id |-> Len(h), vals |-> v] : v \in IF full THEN Vals(c) ELSE {NoVals}}
     \union {[op |-> "deletedim", id |-> Len(h), x |-> x] :
               x \in IF full THEN IntX((-n - 1)..n) \union ListX((-n)..(n - 1), 2)
                                  \union SliceX(OptI({1, -1}), OptI({2, -1}), OptI({2, -1}))
                             ELSE IntX({0, -1})}
AxisOps(h) == LET n == h[Len(h)].nd IN {[op |-> "values", id |-> Len(h), axis |-> a] : a \in (-n - 1)..n}
OriOps(h, full) ==
  LET n == h[Len(h)].nd
  IN {[op |-> "coorient", id |-> Len(h), a1 |-> a, a2 |-> b] :
        a \in IF full THEN (-n)..(n - 1) ELSE {0}, b \in IF full THEN (-n)..(n - 1) ELSE {1}}
Searched == {[v |-> p, dt |-> "float64"] : p \in Abc \union {<<"1", "1">>}}
FindOps(h) ==
  LET c == h[Len(h)]
      n == Size(c)
      B == OptI((-n - 1)..(n + 1))
  IN {[op |-> "index", id |-> Len(h), p |-> p, a |-> a, b |-> b] : p \in Searched, a \in B, b \in B}
     \union {[op |-> o, id |-> Len(h), p |-> p] : o \in {"count", "haspoint"}, p \in Searched \union {[v |-> <<"1", "0", "0">>, dt |-> "float64"]}}
PairOps(h) == {[op |-> o, id |-> i, id2 |-> j] : o \in {"eq", "hascurve"}, i, j \in 1..Len(h)}
DropOps(h) == LET c == h[Len(h)] IN {[op |-> "drop", id |-> Len(h), x |-> x] : x \in MaskX(Size(c)) \union
                   {y \in ListX((-Size(c))..(Size(c) - 1), 2) : Len(y.l) > 0}}
TOps(h) == {[op |-> "t", id |-> Len(h)]}
Again(h) == {[op |-> "repeat", id |-> i] : i \in {1, Len(h)}} \union {[op |-> "read", id |-> i] : i \in {1, Len(h)}}

Few(h) == RevOps(h) \union InsOps(h, FALSE) \union DelOps(h, FALSE) \union {[op |-> "concat", id |-> 1, id2 |-> Len(h)]}
          \union FilOps(h) \union GetOps(h, FALSE) \union DimOps(h, FALSE) \union OriOps(h, FALSE)
          \union {[op |-> "append", id |-> Len(h), o |-> PtOp(h[Len(h)].nd), how |-> "point"],
                  [op |-> "copy", id |-> Len(h)]}

(* ------------------- all constructions of small inputs (C02) ---------------- *)
Shapes == {<<0>>, <<2>>, <<0, 2>>, <<0, 3>>, <<2, 0>>} \union {<<a, b>> : a, b \in 1..3}
          \union {<<a, b, c>> : a, b, c \in 1..2} \union {<<0, 1, 2>>, <<2, 2, 2, 2>>}
Flat(s) == [i \in 1..ProdTo(s, Len(s)) |-> R(i)]
Rect(s) == Len(s) = 2 /\ s[1] > 0
Given(k) == [h |-> TRUE, shape |-> <<k>>, flat |-> [i \in 1..k |-> R(3 * i)]]
NotGiven == [h |-> FALSE, shape |-> <<>>, flat |-> <<>>]
DT(d) == IF d = "" THEN [h |-> FALSE, v |-> ""] ELSE [h |-> TRUE, v |-> d]
FromCurve(h) ==
  {[op |-> "construct", id |-> 1, form |-> "curve", shape |-> <<1>>, flat |-> <<>>, dt |-> "float64",
    opt |-> [axis |-> a, ndmin |-> m, dtype |-> d, num |-> TRUE, tdata |-> td]] :
     a \in {NoInt, AnInt(1)}, td \in {NotGiven, Given(1)}, m \in OptI({1, 2, 3, 4}), d \in {DT(""), DT("float32"), DT("int64")}}

(* --------------------------------- machine --------------------------------- *)
LastOps(h) ==
  CASE Prop = "C02" -> FromCurve(h) \union {[op |-> "copy", id |-> Len(h)]}
    [] Prop = "C03" -> GetOps(h, TRUE) \union GetInts(h) \union Subs(h)
    [] Prop = "C04" -> InsOps(h, TRUE) \union DelOps(h, TRUE) \union CatOps(h) \union AppOps(h) \union RevOps(h)
    [] Prop = "C05" -> DimOps(h, TRUE) \union AxisOps(h)
    [] Prop = "C06" -> FindOps(h) \union PairOps(h)
    [] Prop = "C07" -> FilOps(h) \union (IF Size(h[Len(h)]) <= 3 THEN DropOps(h) ELSE {})
    [] Prop = "C08" -> TOps(h)
    [] Prop = "C14" -> OriOps(h, TRUE)
    [] Prop = "C01" -> Again(h)

Steps1(h) == IF Prop = "C06" THEN GetOps(h, FALSE) \union RevOps(h)
             ELSE IF Prop = "C07" THEN FilOps(h)
             ELSE IF Prop = "C14" THEN OriOps(h, FALSE) \union RevOps(h)
             ELSE Few(h)

StartEv(c) == [op |-> "start", c |-> c]
Start(c) == heap = <<c>> /\ hist = <<StartEv(c)>>


Init == \/ \E c \in Starts : Start(c)
        \/ Prop = "C02" /\ heap = <<>> /\ hist = <<>>
Do(ev) == /\ heap' \in After(ev, heap)
          /\ hist' = Append(hist, ev)
Build ==
  \E s \in Shapes : \E f \in IF Rect(s) THEN {"array", "seq"} ELSE {"array"}, d \in {"float64", "int16"},
     a \in OptI((-Len(s) - 1)..Len(s)), m \in OptI({1, 2, 3, 4}), dt \in {"", "float32", "int32"},
     td \in {NotGiven, Given(1), Given(2), [h |-> TRUE, shape |-> <<1, 2>>, flat |-> <<"1", "2">>]} :
       Do([op |-> "construct", id |-> 0, form |-> f, shape |-> s, flat |-> Flat(s), dt |-> d,
           opt |-> [axis |-> a, ndmin |-> m, dtype |-> DT(dt), num |-> TRUE, tdata |-> td]])
Next == /\ Len(hist) <= Depth
        /\ IF hist = <<>> THEN Build
           ELSE IF hist[1].op = "construct" THEN FALSE
           ELSE IF Len(hist) = Depth THEN \E ev \in LastOps(heap) : Do(ev)
           ELSE \E ev \in Steps1(heap) : Do(ev)
Spec == Init /\ [][Next]_vars

Complete == Len(hist) = Depth + 1 \/ (Len(hist) = 1 /\ hist[1].op = "construct")
Emit == ~Complete \/ PrintT("BEH " \o ToJson(hist))

(* ------------------------------- properties -------------------------------- *)
LawsHold == IF heap = <<>> THEN TRUE ELSE Laws(heap[Len(heap)])
\* C01: what exists stays as it is
Immutable == [][\A i \in 1..Len(heap) : heap'[i] = heap[i]]_vars
=============================================================================
