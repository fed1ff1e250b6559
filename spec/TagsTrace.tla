------------------------------ MODULE TagsTrace ------------------------------
(* Routing of tasks to sub-schedulers by tags.                                 *)
(*   sup: tags per sub-scheduler, in order of registration; tg: tags per task  *)
EXTENDS TraceLib
SetOf(q) == {q[k] : k \in DOMAIN q}
TFresh(x) == [unit |-> x.arg[1] = "unit", sup |-> << >>, tg |-> [t \in {} |-> {}], res |-> [t \in {} |-> 0], ord |-> << >>,
              got |-> 0, held |-> [t \in {} |-> 0], asleep |-> {}, hit |-> {}, dep |-> 0,
              refused |-> {}, acc |-> {}, take |-> {}, run |-> {}, end |-> {}, em |-> {}, pre |-> {}, up |-> [t \in {} |-> 0]]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
First(s, t) == LET ok == {k \in DOMAIN s.sup : s.tg[t] \subseteq s.sup[k]} IN
               IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : k <= j
Holding(s) == \E t \in DOMAIN s.held : s.held[t] > 0
Gone(s, a) == a \in s.refused \/ (a \in s.end /\ \A c \in DOMAIN s.up : s.up[c] = a => (c \in s.refused \/ c \in s.end))
\* the closest earlier task of the scope that uses the same resource and was not refused
Pred(s, t) == LET J == {j \in DOMAIN s.ord : s.up[s.ord[j]] = s.up[t] /\ s.res[s.ord[j]] = s.res[t] /\ s.ord[j] \notin s.refused
                                             /\ \E k \in DOMAIN s.ord : s.ord[k] = t /\ j < k} IN
              IF J = {} THEN 0 ELSE s.ord[CHOOSE j \in J : \A k \in J : k <= j]
TReasons(s, e) ==
  CASE e[1] = "Em"   -> R("route.emplace", First(s, e[3]) = e[2]) \cup R("route.twice", (s.unit /\ s.got = 0) \/ (~s.unit /\ e[3] \notin s.em))
    [] e[1] = "Act"  -> R("route.activate", First(s, e[3]) = e[2]) \cup R("route.twice", ~s.unit \/ s.got = 0)
    [] e[1] = "Dep"  -> R("route.dependency", First(s, e[4]) = e[2])
    [] e[1] = "EmR"  -> R("route.refusal", (e[3] = 1) = (First(s, e[2]) # 0)) \cup
                        R("route.lost", e[3] = 0 \/ (s.unit /\ s.got = 1) \/ (~s.unit /\ e[2] \in s.em))
    [] e[1] = "ActR" -> R("route.refusal", (e[3] = 1) = (First(s, e[2]) # 0)) \cup R("route.lost", e[3] = 0 \/ s.got = 1)
    [] e[1] = "DepR" -> R("route.refusal", (e[4] # -1) = (First(s, e[3]) # 0)) \cup R("route.answer", e[4] = -1 \/ e[4] = s.dep)
    [] e[1] = "StR"  -> IF e[2] = 0 THEN R("steal.missed", ~Holding(s)) ELSE R("steal.task", e[2] \in DOMAIN s.held /\ s.held[e[2]] > 0)
    [] e[1] = "WakeR" -> R("wake.answer", (e[3] = 1) = (s.hit # {})) \cup R("wake.lost", s.hit # {} \/ ~\E p \in s.asleep : p[2] = e[2])
    [] e[1] = "WakeAllR" -> R("wake.all", s.hit = DOMAIN s.sup)
    \* an error of one task never touches the others
    [] e[1] = "Run"  -> R("run.refused", e[2] \notin s.refused) \cup R("run.twice", e[2] \notin s.run) \cup R("run.unsent", e[2] \in s.em) \cup
                        R("run.order", s.res[e[2]] = 0 \/ Pred(s, e[2]) = 0 \/ LET a == Pred(s, e[2]) IN Gone(s, a) \/ (a \in s.take /\ <<a, e[2]>> \in s.pre))
    [] e[1] = "Take" -> R("run.other", First(s, e[3]) = e[2])
    [] e[1] = "BarR" -> R("barrier.early", s.acc \subseteq s.end)
    [] OTHER -> {}
TEffect(s, e) ==
  CASE e[1] = "Sub"  -> [s EXCEPT !.sup = Append(@, SetOf(e[3]))]
    [] e[1] = "Task" -> [s EXCEPT !.tg = Upd(@, e[2], SetOf(e[3])), !.res = Upd(@, e[2], 0)]
    [] e[1] = "EmC"  -> IF s.unit THEN [s EXCEPT !.got = 0]
                        ELSE [s EXCEPT !.tg = Upd(@, e[2], SetOf(e[3])), !.res = Upd(@, e[2], e[4]), !.ord = Append(@, e[2]), !.up = Upd(@, e[2], e[5])]
    [] e[1] = "Em"   -> [s EXCEPT !.got = @ + 1, !.em = @ \cup {e[3]}, !.held = Upd(@, e[3], (IF e[3] \in DOMAIN @ THEN @[e[3]] ELSE 0) + 1)]
    [] e[1] = "Act"  -> [s EXCEPT !.got = @ + 1, !.held = Upd(@, e[3], (IF e[3] \in DOMAIN @ THEN @[e[3]] ELSE 0) + 1)]
    [] e[1] \in {"ActC", "DepC"} -> [s EXCEPT !.got = 0]
    [] e[1] = "Dep"  -> [s EXCEPT !.dep = e[5], !.pre = IF e[5] = 1 THEN @ \cup {<<e[3], e[4]>>} ELSE @]
    [] e[1] = "EmR"  -> IF e[3] = 1 THEN [s EXCEPT !.acc = @ \cup {e[2]}] ELSE [s EXCEPT !.refused = @ \cup {e[2]}]
    [] e[1] = "StR"  -> IF e[2] = 0 \/ e[2] \notin DOMAIN s.held THEN s ELSE [s EXCEPT !.held[e[2]] = @ - 1]
    [] e[1] = "Sleep" -> [s EXCEPT !.asleep = @ \cup {<<e[2], e[3]>>}]
    [] e[1] \in {"WakeC", "WakeAllC"} -> [s EXCEPT !.hit = {}]
    [] e[1] = "Wake" -> [s EXCEPT !.hit = @ \cup {e[2]}, !.asleep = @ \ {<<e[2], e[3]>>}]
    [] e[1] = "WakeAll" -> [s EXCEPT !.hit = @ \cup {e[2]}, !.asleep = {p \in @ : p[1] # e[2]}]
    [] e[1] = "Take" -> [s EXCEPT !.take = @ \cup {e[3]}]
    [] e[1] = "Run"  -> [s EXCEPT !.run = @ \cup {e[2]}]
    [] e[1] = "End"  -> [s EXCEPT !.end = @ \cup {e[2]}]
    [] OTHER -> s
TEnd(s) == R("final.lost", s.unit \/ s.acc \subseteq s.end)
=============================================================================
