------------------------------ MODULE TaskTrace ------------------------------
(* Judges recorded executions: one step per event, every rule evaluated at      *)
(* every step.  `bad` collects <<index, rule>> of everything the execution      *)
(* broke; the step is taken regardless, so the rest of the trace is judged too. *)
EXTENDS TaskSystem, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, S, bad
vars == << tr, i, S, bad >>
\* S and bad are functions of the trace and the position
V == << tr, i >>

Ev == Traces[tr].ev

Reasons(s, e) ==
  CASE e[1] = "Sub"    -> SubReasons(s, e[2], e[3])
    [] e[1] = "Start"  -> StartReasons(s, e[2], e[3], e[4], e[5])
    [] e[1] = "End"    -> EndReasons(s, e[2])
    [] e[1] = "MkFail" -> MkFailReasons(s, e[2])
    [] e[1] = "Resume" -> ResumeReasons(s, e[2], e[3], e[4], e[5])
    [] e[1] = "GetR"   -> GetRReasons(s, e[2], e[3], e[4])
    [] e[1] = "Rdy"    -> RdyReasons(s, e[2], e[3])
    [] e[1] = "DemR"   -> DemRReasons(s, e[2], e[3])
    [] e[1] = "Dtor"   -> DtorReasons(s, e[2])
    [] e[1] = "BarR"   -> BarRReasons(s)
    [] e[1] = "FinR"   -> FinRReasons(s, e[2])
    [] e[1] = "Ctx"    -> CtxReasons(s, e[2], e[3], e[4], e[5])
    [] e[1] = "Q"      -> QReasons(s)
    [] e[1] = "Mem"    -> R("memory.blocks", e[2] = 0)
    [] e[1] \in {"Stuck", "Hang", "Crash", "Killed", "TouchFreed", "BadFree", "Throw", "BadOp"} -> {"run." \o e[1]}
    [] OTHER           -> {}

Effect(s, e) ==
  CASE e[1] = "Init"   -> InitEffect(s)
    [] e[1] = "Sub"    -> SubEffect(s, e[2], e[3], e[4], e[5])
    [] e[1] = "SubR"   -> SubREffect(s, e[2])
    [] e[1] = "Start"  -> StartEffect(s, e[2])
    [] e[1] = "End"    -> EndEffect(s, e[2])
    [] e[1] = "Mk"     -> MkEffect(s, e[2], e[3])
    [] e[1] = "MkFail" -> MkFailEffect(s, e[2], e[3])
    [] e[1] = "Yield"  -> YieldEffect(s, e[2], e[3])
    [] e[1] = "Resume" -> ResumeEffect(s, e[2])
    [] e[1] = "Reach"  -> ReachEffect(s, e[3])
    [] e[1] = "ReachR" -> ReachREffect(s, e[3])
    [] e[1] = "Get"    -> GetEffect(s, e[2], e[3])
    [] e[1] = "GetR"   -> GetREffect(s, e[2], e[3])
    [] e[1] = "Drop"   -> DropEffect(s, e[2])
    [] e[1] = "Dem"    -> DemEffect(s, e[2], e[3])
    [] e[1] = "DemR"   -> DemREffect(s, e[2])
    [] e[1] = "Dtor"   -> DtorEffect(s, e[2])
    [] e[1] = "Bar"    -> BarEffect(s)
    [] e[1] = "BarR"   -> BarREffect(s)
    [] e[1] = "Fin"    -> FinEffect(s)
    [] e[1] = "FinR"   -> FinREffect(s)
    [] e[1] = "Q"      -> QEffect(s)
    [] OTHER           -> s

\* at the end of a trace of a terminated run everything must have been executed
EndReasonsAll(s) ==
    R("end.unfinished", AllFin(s)) \cup R("end.undestroyed", AllGone(s))

Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ S = NewState(Traces[tr].n)
        /\ bad = {}

Next ==
    \/ /\ i <= Len(Ev)
       /\ LET e == Ev[i]
              why == Reasons(S, e) \cup (IF e[1] = "Done" THEN EndReasonsAll(S) ELSE {})
          IN /\ bad' = bad \cup {<<i, w>> : w \in why}
             /\ S' = Effect(S, e)
       /\ i' = i + 1
       /\ UNCHANGED tr
    \/ /\ i = Len(Ev) + 1
       /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].p, Traces[tr].id, bad>>)
       /\ i' = i + 1
       /\ UNCHANGED << tr, S, bad >>

Spec == Init /\ [][Next]_vars
=============================================================================
