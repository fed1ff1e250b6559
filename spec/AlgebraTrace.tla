---------------------------- MODULE AlgebraTrace ----------------------------
(* Answers of the real access relations and of the task-level closures.        *)
EXTENDS TraceLib, AccessTree
AFresh(x) == [u |-> [k \in {} |-> << >>]]
Get(s, k) == IF k \in DOMAIN s.u THEN s.u[k] ELSE << >>
Put(s, k, q) == [s EXCEPT !.u = [j \in DOMAIN @ \cup {k} |-> IF j = k THEN q ELSE @[j]]]
B1(x) == x = 1
Distinct(q) == Cardinality({q[j][1] : j \in DOMAIN q})
AReasons(s, e) ==
  CASE e[1] = "Rel" -> LET a == e[2] b == e[3] IN
         R("conflict", B1(e[4]) = Ser(a, b)) \cup R("symmetry", e[4] = e[5]) \cup R("containment", B1(e[6]) = Sup(a, b) /\ B1(e[7]) = Sup(b, a)) \cup
         R("synchronizing", B1(e[8]) = Sync(a) /\ B1(e[9]) = Sync(b)) \cup R("equality", B1(e[10]) = Eq(a, b))
    [] e[1] = "Acc" -> LET a == e[2] b == e[3] same == B1(e[4]) IN
         R("access.conflict", B1(e[5]) = (same /\ Ser(a, b))) \cup R("access.symmetry", e[5] = e[6]) \cup
         R("access.containment", B1(e[7]) = (same /\ Sup(a, b)) /\ B1(e[8]) = (same /\ Sup(b, a))) \cup
         R("access.synchronizing", B1(e[9]) = Sync(a) /\ B1(e[10]) = Sync(b)) \cup R("access.equality", B1(e[11]) = (same /\ Eq(a, b))) \cup
         R("access.resource", B1(e[12]) = same)
    [] e[1] = "Cmp" -> LET A == Get(s, e[2]) B == Get(s, e[3]) IN
         R("list.conflict", B1(e[4]) = LSer(A, B)) \cup R("list.symmetry", e[4] = e[5]) \cup
         R("list.containment", B1(e[6]) = LSup(A, B) /\ B1(e[7]) = LSup(B, A))
    [] e[1] = "Sync" -> R("list.synchronizing", B1(e[4]) = LSync(Get(s, e[2]), e[3]))
    [] e[1] = "Uniq" -> R("list.resources", e[3] = Distinct(Get(s, e[2])))
    [] OTHER -> {}
AEffect(s, e) ==
  CASE e[1] = "Add"  -> Put(s, e[2], Append(Get(s, e[2]), <<e[3], e[4]>>))
    [] e[1] = "Rm"   -> Put(s, e[2], SelectSeq(Get(s, e[2]), LAMBDA p : ~(p[1] = e[3] /\ Eq(p[2], e[4]))))
    [] e[1] = "Copy" -> Put(s, e[3], Get(s, e[2]))
    [] OTHER -> s
AEnd(s) == {}
=============================================================================
