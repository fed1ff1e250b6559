------------------------------ MODULE TraceLib ------------------------------
(* Judging recorded executions of a component: one step per event, all rules   *)
(* evaluated at every step.  The component's trace module says (by the         *)
(* substitutions in its .cfg) what the initial state of a trace is, which      *)
(* rules an event breaks in a state, its effect, and which rules the complete  *)
(* trace breaks.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Fresh(_), Reasons(_, _), Effect(_, _), AtEnd(_)

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, S, bad
vars == << tr, i, S, bad >>
V == << tr, i >>
Ev == Traces[tr].ev
R(name, ok) == IF ok THEN {} ELSE {name}
Fatal == {"Stuck", "Hang", "Crash", "Killed", "TouchFreed", "BadFree", "Throw", "BadOp"}

Why(s, e) == IF e[1] \in Fatal THEN {"run." \o e[1]}
             ELSE Reasons(s, e) \cup (IF e[1] = "Done" THEN AtEnd(s) ELSE {})
Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ S = Fresh(Traces[tr])
        /\ bad = {}
Next ==
    \/ /\ i <= Len(Ev)
       /\ bad' = bad \cup {<<i, w>> : w \in Why(S, Ev[i])}
       /\ S' = IF Ev[i][1] \in Fatal \cup {"Done"} THEN S ELSE Effect(S, Ev[i])
       /\ i' = i + 1
       /\ UNCHANGED tr
    \/ /\ i = Len(Ev) + 1
       /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].p, Traces[tr].id, bad>>)
       /\ i' = i + 1
       /\ UNCHANGED << tr, S, bad >>
Spec == Init /\ [][Next]_vars
=============================================================================
