------------------------------ MODULE MpiTrace ------------------------------
(* Requests waited for by tasks.  The request moves                            *)
(*   idle -> waited (GetC) -> polled (seen by a Test) -> reported -> got       *)
(* wait: task waiting for a request; seen: requests the pool polls; rep:       *)
(* requests MPI reported as completed                                          *)
EXTENDS TraceLib
SetOf(q) == {q[k] : k \in DOMAIN q}
NoDup(q) == Cardinality(SetOf(q)) = Len(q)
MFresh(x) == [wait |-> {}, seen |-> {}, rep |-> {}, cmpl |-> {}, got |-> {}, tasks |-> {}, end |-> {}]
Waited(s) == {w[2] : w \in s.wait}
MReasons(s, e) ==
  CASE e[1] = "Test" -> R("poll.twice", NoDup(e[2])) \cup R("poll.foreign", SetOf(e[2]) \subseteq Waited(s) \ s.rep) \cup
                        R("poll.dropped", s.seen \ s.rep \subseteq SetOf(e[2])) \cup
                        R("stub", SetOf(e[3]) \subseteq s.cmpl)
    [] e[1] = "GetR" -> R("got.early", e[3] \in s.rep) \cup R("got.status", e[4] = 1) \cup R("got.twice", <<e[2], e[3]>> \in s.wait) \cup
                        R("got.context", e[5] = e[2])
    [] e[1] = "BarR" -> R("barrier.early", s.wait = {} /\ s.tasks \subseteq s.end)
    [] e[1] = "Left" -> R("pool.residue", e[2] = 0 /\ e[3] = 0 /\ e[4] = 0)
    [] OTHER -> {}
MEffect(s, e) ==
  CASE e[1] = "GetC" -> [s EXCEPT !.wait = @ \cup {<<e[2], e[3]>>}, !.tasks = @ \cup {e[2]}]
    [] e[1] = "Cmpl" -> [s EXCEPT !.cmpl = @ \cup {e[2]}]
    [] e[1] = "Test" -> [s EXCEPT !.seen = @ \cup SetOf(e[2]), !.rep = @ \cup SetOf(e[3])]
    [] e[1] = "GetR" -> [s EXCEPT !.wait = @ \ {<<e[2], e[3]>>}, !.got = @ \cup {e[3]}]
    [] e[1] = "End"  -> [s EXCEPT !.end = @ \cup {e[2]}]
    [] OTHER -> s
MEnd(s) == R("final.lost", s.wait = {})
=============================================================================
