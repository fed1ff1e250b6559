----------------------------- MODULE PropsTrace -----------------------------
(* What tasks are declared to be, and what children may declare.               *)
EXTENDS TraceLib, Access
PFresh(x) == [own |-> << >>, canon |-> << >>, decl |-> << >>, info |-> << >>, ok |-> << >>, acc |-> {}, ran |-> {}, done |-> {}, ids |-> << >>, refused |-> FALSE]
Upd(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
C(s, a) == << s.canon[a[1]], a[2], a[3], a[4], a[5], a[6] >>
CL(s, L) == [k \in DOMAIN L |-> C(s, L[k])]
SetOf(L) == {L[k] : k \in DOMAIN L}
\* a child of p may declare L: everything of the outside is covered by what p declares
Legal(s, p, L) == p = 0 \/ \A k \in DOMAIN L : s.own[L[k][1]] = p \/ \E b \in SetOf(s.decl[p]) : AccCovers(b, L[k])
\* the accesses denoted by one description (a list of what it is equal to)
One(s, d) == {C(s, x) : x \in SetOf(d)}
Arg(s, t, f, a, v) ==
  IF f \in {8, 18, 19} THEN v[1] = "a" /\ One(s, v[2]) = {a}
  ELSE v[1] = "g" /\ {s.canon[r] : r \in SetOf(v[2])} = {a[1]} /\ One(s, v[3]) = {a} /\ v[4] = (IF a[2] = 1 THEN 1 ELSE 0)
Args(s, t, vs) ==
  LET I == s.info[t]
      A == SelectSeq([k \in DOMAIN I.full |-> <<I.forms[k], I.full[k]>>], LAMBDA x : x[1] >= 2)
      G(k, v) == Arg(s, t, A[k][1], A[k][2], v)
      pat == I.pat
      n == Len(vs)
  IN CASE pat = 0 -> n = 0
       [] pat \in {1, 6, 7} -> n = 1 /\ G(1, vs[1])
       [] pat = 2 -> n = 2 /\ G(1, vs[1]) /\ G(2, vs[2])
       [] pat = 3 -> n = 3 /\ G(1, vs[1]) /\ vs[2] = <<"v", 3 * t>> /\ vs[3] = <<"s", "x" \o ToString(t)>>
       [] pat = 4 -> n = 4 /\ G(1, vs[1]) /\ vs[2] = <<"p", t>> /\ G(2, vs[3]) /\ vs[4] = <<"v", 5 * t>>
       [] pat = 5 -> n = 7 /\ vs[1] = <<"v", 3 * t>> /\ vs[2] = <<"s", "r">> /\ vs[3] = <<"s", "l" \o ToString(t)>> /\ vs[4] = <<"s", "c" \o ToString(t)>>
                     /\ vs[5] \in {<<"v", t + 100>>, <<"v", t + 200>>} /\ vs[6] = <<"p", t>> /\ vs[7] = <<"v", 7>>
       [] pat = 8 -> n = 2 /\ G(1, vs[1]) /\ vs[2] = <<"v", 3 * t>>
PReasons(s, e) ==
  CASE e[1] = "Acc" -> R("rights.exceeded", s.ok[e[2]])
    [] e[1] = "Refused" -> R("rights.refused", ~s.ok[e[2]])
    [] e[1] = "Run" -> R("rights.executed", s.ok[e[2]]) \cup R("decl.once", e[2] \notin s.ran) \cup R("decl.arguments", Args(s, e[2], e[4]))
    [] e[1] = "Props" ->
         LET t == e[2] IN
         R("decl.accesses", (\A k \in DOMAIN e[3] : Cardinality(One(s, e[3][k])) = 1) /\ UNION {One(s, e[3][k]) : k \in DOMAIN e[3]} = SetOf(s.decl[t])) \cup
         R("decl.label", e[4] = "t" \o ToString(t)) \cup R("decl.tags", SetOf(e[5]) = SetOf(s.info[t].tags)) \cup
         R("decl.id", (t \in DOMAIN s.ids => s.ids[t] = e[6]) /\ \A u \in DOMAIN s.ids \ {t} : s.ids[u] # e[6]) \cup
         R("decl.stack", e[7] = s.info[t].stack)
    [] e[1] = "Same" -> LET same == s.canon[e[2]] = s.canon[e[3]] b == IF same THEN 1 ELSE 0 IN
         R("decl.identity", e[4] = b /\ e[5] = b /\ e[6] = b) \cup R("decl.resourceid", e[7] = b)
    [] OTHER -> {}
PEffect(s, e) ==
  CASE e[1] = "Mk" -> [s EXCEPT !.own = Upd(@, e[3], e[2]), !.canon = Upd(@, e[3], e[3])]
    [] e[1] = "Cp" -> [s EXCEPT !.canon = Upd(@, e[2], s.canon[e[3]])]
    [] e[1] = "Sub" -> LET t == e[2] L == CL(s, e[4]) IN
         [s EXCEPT !.decl = Upd(@, t, L), !.ok = Upd(@, t, Legal(s, e[3], L)),
                   !.info = Upd(@, t, [tags |-> e[5], pat |-> e[6], forms |-> e[7], stack |-> e[8], full |-> L])]
    [] e[1] = "Acc" -> [s EXCEPT !.acc = @ \cup {e[2]}]
    [] e[1] = "Refused" -> [s EXCEPT !.refused = TRUE]
    [] e[1] = "Run" -> [s EXCEPT !.ran = @ \cup {e[2]}]
    [] e[1] = "End" -> [s EXCEPT !.done = @ \cup {e[2]}]
    [] e[1] = "Props" -> [s EXCEPT !.ids = Upd(@, e[2], e[6])]
    [] e[1] = "Dem" -> IF e[4] = 1 THEN [s EXCEPT !.decl = Upd(@, e[2], CL(s, e[3]))] ELSE s
    [] OTHER -> s
PEnd(s) == R("run.lost", s.refused \/ s.acc \subseteq s.done)
=============================================================================
