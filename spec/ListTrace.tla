----------------------------- MODULE ListTrace -----------------------------
(* The concurrent list as its callers see it.  Every value is pushed once.     *)
(*  pc, pr   values whose push was called / has returned                       *)
(*  bef[v]   values whose push had returned when the push of v was called      *)
(*  rc, rr   values whose removal was called / certainly happened              *)
(*  held     <<thread, slot, value>>: positions kept by callers                *)
(*  cur[t]   running iteration: must (seen for sure), no (must not be seen),   *)
(*           seen, at (the element it stands on)                               *)
(*  dt       destroyed values                                                  *)
EXTENDS TraceLib
NoIt == [on |-> FALSE, must |-> {}, no |-> {}, seen |-> {}, at |-> -1]
LFresh(t) == [pc |-> {}, pr |-> {}, bef |-> <<>>, rc |-> {}, rr |-> {}, era |-> {}, held |-> {},
              cur |-> [x \in 0..(t.n - 1) |-> NoIt], dt |-> {}, fin |-> FALSE, seq |-> <<>>]
Held(s) == {h[3] : h \in s.held} \cup {s.cur[t].at : t \in DOMAIN s.cur}
Ran(q) == {q[k] : k \in DOMAIN q}
Ordered(s, q) == \A a, b \in DOMAIN q : a < b => q[a] \notin s.bef[q[b]] /\ q[a] # q[b]
LReasons(s, e) ==
  CASE e[1] = "PushR" -> R("push.position", e[4] = 1)
    [] e[1] = "See"   -> LET c == s.cur[e[2]] v == e[3] IN
                         R("see.corrupt", e[4] = 1)
                         \cup R("see.unpushed", v \in s.pc)
                         \cup R("see.removed", v \notin c.no)
                         \cup R("see.twice", v \notin c.seen)
                         \cup R("see.destroyed", v \notin s.dt)
                         \cup R("see.order", v \in s.pc => \A a \in c.seen : a \notin s.bef[v])
    [] e[1] = "IterR" -> R("iter.missed", s.cur[e[2]].must \subseteq s.cur[e[2]].seen)
    [] e[1] = "Again" -> R("see.corrupt", e[3] = 1)
    [] e[1] = "Look"  -> R("held.corrupt", e[5 - 1] = e[3] /\ e[5] = 1)
    [] e[1] = "Dtor"  -> R("dtor.twice", e[2] \notin s.dt /\ e[3] = 1)
                         \cup R("dtor.unpushed", e[2] \in s.pc)
                         \cup R("dtor.early", s.fin \/ e[2] \in s.rc)
                         \cup R("dtor.held", e[2] \notin Held(s))
    [] e[1] = "Fin"   -> LET must == s.pr \ s.rc may == s.pr \ s.rr q == e[2] IN
                         R("fin.missed", must \subseteq Ran(q))
                         \cup R("fin.extra", Ran(q) \subseteq may)
                         \cup (IF Ran(q) \subseteq s.pc THEN R("fin.order", Ordered(s, q)) ELSE {})
                         \cup R("fin.dtor", \A v \in s.rr : v \in s.dt)
    [] e[1] = "Chunks" -> R("memory.chunks", e[2] <= Cardinality(Ran(s.seq)) + 2)
    [] e[1] = "Copy"  -> R("copy", e[2] = s.seq)
    [] e[1] = "Move"  -> R("move", e[2] = <<999>> \o s.seq)
    [] e[1] = "ListD" -> R("dtor.late", \A v \in s.rr : v \in s.dt)
    [] e[1] = "Mem"   -> R("memory.leak", e[2] = 0) \cup R("dtor.missing", s.pr \subseteq s.dt)
    [] OTHER          -> {}
Removing(s, v) == [s EXCEPT !.rc = @ \cup {v}, !.cur = [t \in DOMAIN @ |-> [@[t] EXCEPT !.must = @ \ {v}]]]
LEffect(s, e) ==
  CASE e[1] = "PushC" -> [s EXCEPT !.pc = @ \cup {e[3]}, !.bef = (e[3] :> s.pr) @@ @]
    [] e[1] = "PushR" -> [s EXCEPT !.pr = @ \cup {e[3]}]
    [] e[1] = "Hold"  -> [s EXCEPT !.held = @ \cup {<<e[2], e[3], e[4]>>}]
    [] e[1] = "Rel"   -> [s EXCEPT !.held = {h \in @ : ~(h[1] = e[2] /\ h[2] = e[3])}]
    [] e[1] = "RmC"   -> Removing(s, e[3])
    [] e[1] = "RmR"   -> [s EXCEPT !.rr = @ \cup {e[3]}]
    [] e[1] = "EraC"  -> [Removing(s, e[3]) EXCEPT !.era = IF e[3] \in s.pr THEN @ \cup {<<e[2], e[3]>>} ELSE @]
    [] e[1] = "EraR"  -> IF <<e[2], e[3]>> \in s.era THEN [s EXCEPT !.rr = @ \cup {e[3]}] ELSE s
    [] e[1] = "IterC" -> [s EXCEPT !.cur[e[2]] = [on |-> TRUE, must |-> s.pr \ s.rc, no |-> s.rr, seen |-> {}, at |-> -1]]
    [] e[1] = "See"   -> [s EXCEPT !.cur[e[2]].seen = @ \cup {e[3]}, !.cur[e[2]].at = e[3]]
    [] e[1] = "Next"  -> [s EXCEPT !.cur[e[2]].at = -1]
    [] e[1] \in {"IterR", "Stop"} -> [s EXCEPT !.cur[e[2]] = NoIt]
    [] e[1] = "Dtor"  -> [s EXCEPT !.dt = @ \cup {e[2]}]
    [] e[1] = "Fin"   -> [s EXCEPT !.seq = e[2]]
    [] e[1] = "ListD" -> [s EXCEPT !.fin = TRUE]
    [] OTHER          -> s
LEnd(s) == R("end.open", s.held = {})
=============================================================================
