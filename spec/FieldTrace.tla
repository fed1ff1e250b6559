----------------------------- MODULE FieldTrace -----------------------------
(* Guards on a field: which elements they reach, which guards may be derived   *)
(* from them, and what they declare to the scheduler.  An area is              *)
(* <<lo0, hi0, lo1, hi1>>; the unit second dimension stands for one dimension. *)
EXTENDS TraceLib
INF == 1000000
B1(x) == x = 1
GFresh(x) == [d |-> 1, nx |-> 0, ny |-> 0, val |-> << >>, g |-> [k \in {} |-> 0]]
In(A, x, y) == A[1] <= x /\ x < A[2] /\ A[3] <= y /\ y < A[4]
Empty(A) == A[1] >= A[2] \/ A[3] >= A[4]
Within(A, O) == O[1] <= A[1] /\ A[2] <= O[2] /\ O[3] <= A[3] /\ A[4] <= O[4]
Area(s, e) == IF s.d = 1 THEN <<e[5], e[6], 0, 1>> ELSE <<e[5], e[6], e[7], e[8]>>
\* the element behind the last index does not exist: an empty area
Succ(x) == IF x = INF THEN 0 ELSE x + 1
Point(s, e) == IF s.d = 1 THEN <<e[5], Succ(e[5]), 0, 1>> ELSE <<e[5], Succ(e[5]), e[7], Succ(e[7])>>
New(s, e) == LET o == s.g[e[3]] IN
  CASE e[4] = 0 -> [o EXCEPT !.a = Area(s, e)]
    [] e[4] = 1 -> [o EXCEPT !.a = Point(s, e)]
    [] e[4] = 2 -> [o EXCEPT !.w = FALSE]
    [] OTHER -> o
SetOf(q) == {q[k] : k \in DOMAIN q}
Real(s, x, y) == x \in 0..(s.nx - 1) /\ y \in 0..(s.ny - 1)
Idx(s, x, y) == 1 + x + y * s.nx
PX == {0, 1, 2, 3, 4, 5, 6, 7, 500001, 999999}
PY == {0, 1, 2, 3, 4, 999999}
Probes(s) == IF s.d = 1 THEN {<<x, 0>> : x \in PX} ELSE {<<x, y>> : x \in PX, y \in PY}
Reach(s, k) == {p \in Probes(s) : In(s.g[k].a, p[1], p[2])}
GReasons(s, e) ==
  CASE e[1] = "Der"  -> IF e[4] > 1 THEN R("derive.refused", B1(e[9]))
                        ELSE LET n == New(s, e) o == s.g[e[3]] IN
                             IF Empty(n.a) \/ Empty(o.a) THEN {} ELSE R("derive.outside", ~B1(e[9]) \/ Within(n.a, o.a)) \cup R("derive.refused", B1(e[9]) \/ ~Within(n.a, o.a))
    [] e[1] = "Get"  -> IF In(s.g[e[2]].a, e[3], e[4]) THEN R("get.refused", e[5] # -1) \cup R("get.value", ~Real(s, e[3], e[4]) \/ e[5] = s.val[Idx(s, e[3], e[4])])
                        ELSE R("get.outside", e[5] = -1)
    [] e[1] = "Set"  -> R("set.readonly", s.g[e[2]].w) \cup R("set.outside", (e[5] # -1) = In(s.g[e[2]].a, e[3], e[4]))
    [] e[1] = "Dump" -> R("write.effect", e[2] = s.val)
    [] e[1] = "Same" -> R("guard.object", B1(e[3])) \cup R("guard.const", e[4] = IF s.g[e[2]].w THEN 0 ELSE 3)
    [] e[1] = "Decl" -> LET w == s.g[e[2]].w r == Reach(s, e[2]) m == e[3] IN
                        IF Empty(s.g[e[2]].a) THEN {}
                        ELSE R("declared.covers", SetOf(e[4]) = IF w \/ m = 1 THEN r ELSE {}) \cup
                             R("declared.conflicts", SetOf(e[5]) = IF w \/ m # 1 THEN r ELSE {})
    [] OTHER -> {}
GEffect(s, e) ==
  CASE e[1] = "Field" -> [s EXCEPT !.d = e[2], !.nx = e[3], !.ny = e[4], !.val = [k \in 1..(e[3] * e[4]) |-> k],
                                   !.g = [k \in {0} |-> [w |-> TRUE, a |-> IF e[2] = 1 THEN <<0, INF, 0, 1>> ELSE <<0, INF, 0, INF>>]]]
    [] e[1] = "Der" -> IF ~B1(e[9]) THEN s ELSE [s EXCEPT !.g = [k \in DOMAIN @ \cup {e[2]} |-> IF k = e[2] THEN New(s, e) ELSE @[k]]]
    [] e[1] = "Set" -> IF e[5] = -1 \/ ~Real(s, e[3], e[4]) \/ ~In(s.g[e[2]].a, e[3], e[4]) THEN s ELSE [s EXCEPT !.val[Idx(s, e[3], e[4])] = e[5]]
    [] OTHER -> s
GEnd(s) == {}
=============================================================================
