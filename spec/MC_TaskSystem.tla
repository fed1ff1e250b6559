--------------------------- MODULE MC_TaskSystem ---------------------------
(* TaskSystem as a transition system, for every program of a family and every   *)
(* order in which tasks, their bodies, the notifier of the events and the main  *)
(* program may take their steps.  The actions are guarded by exactly the rules  *)
(* (XReasons = {}) that TaskTrace judges recorded executions with.              *)
(*                                                                              *)
(* Checked: the rules imply the properties when those are stated directly over  *)
(* the history (mutual exclusion of conflicting bodies, completion of families, *)
(* the sequential meaning of the data, progress), and the rules for an idle     *)
(* system never blame a state the actions can get to (no false alarms).         *)
EXTENDS TaskSystem, Programs
CONSTANT WORKERS

VARIABLES prog, S, pc, mem, work, ended0
vars == << prog, S, pc, mem, work, ended0 >>
\* mem: contents of the data cells, <<last writer, updates since>>;  work: tasks that did not touch the data yet
Cells == {<<1, 0>>, <<2, 0>>} \cup {<<9, i>> : i \in 0..2}
Body(a) == IF a = 0 THEN prog.main ELSE prog.body[a]
More(a) == pc[a] <= Len(Body(a))
Cmd(a) == Body(a)[pc[a]]
Events == {10 + t : t \in 1..N} \cup {20 + t : t \in 1..N}

Init ==
  /\ prog \in Programs
  /\ S = NewState(N)
  /\ pc = [a \in 0..N |-> 1]
  /\ mem = [c \in Cells |-> <<0, 0>>]
  /\ work = {}
  /\ ended0 = FALSE

Running == {t \in 1..N : S.st[t] = "run" /\ S.getting[t] = 0}
Active(a) == (IF a = 0 THEN ~S.bar /\ ~ended0 ELSE S.st[a] = "run" /\ a \notin work) /\ S.getting[a] = 0 /\ S.on[a] = -1
Advance(a) == pc' = [pc EXCEPT ![a] = @ + 1]

\* ---- the main program and the bodies
Submit(a) ==
  /\ Active(a) /\ More(a) /\ Cmd(a)[1] = "submit"
  /\ LET k == Cmd(a)[2] IN
     /\ SubReasons(S, k, a) = {}
     /\ S' = SubREffect(SubEffect(S, k, a, prog.acc[k], 0), k)
  /\ Advance(a) /\ UNCHANGED << prog, mem, work, ended0 >>
MkEv(a) ==
  /\ Active(a) /\ More(a) /\ Cmd(a)[1] = "mkev"
  /\ S' = MkEffect(S, a, Cmd(a)[2])
  /\ Advance(a) /\ UNCHANGED << prog, mem, work, ended0 >>
Yield(a) ==
  /\ Active(a) /\ More(a) /\ Cmd(a)[1] = "yield"
  /\ S' = YieldEffect(MkEffect(S, a, Cmd(a)[2]), a, Cmd(a)[2])
  /\ Advance(a) /\ UNCHANGED << prog, mem, work, ended0 >>
Demote(a) ==
  /\ Active(a) /\ More(a) /\ Cmd(a)[1] = "demote"
  /\ S' = DemREffect(DemEffect(S, a, Cmd(a)[2]), a)
  /\ Advance(a) /\ UNCHANGED << prog, mem, work, ended0 >>
Get(a) ==
  /\ Active(a) /\ More(a) /\ Cmd(a)[1] = "get"
  /\ S' = GetEffect(S, a, Cmd(a)[2])
  /\ Advance(a) /\ UNCHANGED << prog, mem, work, ended0 >>
\* the end of a body gives up the futures of its children
End(a) ==
  /\ a # 0 /\ Active(a) /\ ~More(a)
  /\ EndReasons(S, a) = {}
  /\ S' = EndEffect([S EXCEPT !.given = @ \cup {S.kids[a][i] : i \in DOMAIN S.kids[a]}], a)
  /\ UNCHANGED << prog, pc, mem, work, ended0 >>
MainBarrier ==
  /\ Active(0) /\ ~More(0)
  /\ S' = BarEffect([S EXCEPT !.given = @ \cup {S.kids[0][i] : i \in DOMAIN S.kids[0]}])
  /\ UNCHANGED << prog, pc, mem, work, ended0 >>

\* ---- the notifier (may act any time after the event exists)
Reach(e) ==
  /\ e \notin S.reach /\ Owner(S, e) # 0
  /\ S' = ReachREffect(ReachEffect(S, e), e)
  /\ UNCHANGED << prog, pc, mem, work, ended0 >>

\* ---- the library
Start(t) ==
  /\ S.st[t] = "sub" /\ Cardinality(Running) < WORKERS
  /\ StartReasons(S, t, <<>>, -1, <<>>) = {}
  /\ S' = StartEffect(S, t)
  /\ work' = work \cup {t}
  /\ UNCHANGED << prog, pc, mem, ended0 >>
\* the body touches its data, some time after its start
AddsOf(t, c) == Adds(S, t, c[1], c[2], 0)
Work(t) ==
  /\ t \in work /\ work' = work \ {t}
  /\ mem' = [c \in Cells |-> IF Writes(S, t, c[1], c[2], 0) THEN <<t, 0>>
                             ELSE <<mem[c][1], mem[c][2] + AddsOf(t, c)>>]
  /\ UNCHANGED << prog, S, pc, ended0 >>
Resume(a) ==
  /\ S.on[a] # -1
  /\ a = 0 \/ Cardinality(Running) < WORKERS
  /\ ResumeReasons(S, a, S.on[a], -1, <<>>) = {}
  /\ S' = ResumeEffect(S, a)
  /\ UNCHANGED << prog, pc, mem, work, ended0 >>
GetR(a) ==
  /\ S.getting[a] # 0
  /\ a = 0 \/ Cardinality(Running) < WORKERS
  /\ GetRReasons(S, a, S.getting[a], S.exp[S.getting[a]]) = {}
  /\ S' = GetREffect(S, a, S.getting[a])
  /\ UNCHANGED << prog, pc, mem, work, ended0 >>
Dtor(t) ==
  /\ S.st[t] = "ended" /\ DtorReasons(S, t) = {}
  /\ S' = DtorEffect(S, t)
  /\ UNCHANGED << prog, pc, mem, work, ended0 >>
BarR ==
  /\ S.bar /\ BarRReasons(S) = {}
  /\ S' = BarREffect(S)
  /\ ended0' = TRUE
  /\ UNCHANGED << prog, pc, mem, work >>

Library == \/ \E t \in 1..N : Start(t) \/ Work(t) \/ Dtor(t)
           \/ \E a \in 0..N : Resume(a) \/ GetR(a)
           \/ BarR
Bodies_ == \E a \in 0..N : Submit(a) \/ MkEv(a) \/ Yield(a) \/ Demote(a) \/ Get(a) \/ End(a)
Notifier == \E e \in Events : Reach(e)
Done == ended0 /\ UNCHANGED vars
Next == Library \/ Bodies_ \/ MainBarrier \/ Notifier \/ Done
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Library) /\ WF_vars(Bodies_ \/ MainBarrier) /\ WF_vars(Notifier)

\* ------------------------------------------------------------- the properties, over the history
Sib(t, u) == S.st[t] # "none" /\ S.st[u] # "none" /\ S.par[t] = S.par[u] /\ S.path[t][Len(S.path[t])] < S.path[u][Len(S.path[u])]
RECURSIVE Desc(_)
Desc(t) == LET K == {S.kids[t][i] : i \in DOMAIN S.kids[t]} IN K \cup UNION {Desc(k) : k \in K}
\* C01: t conflicts with the later u by what they declared: u does not run before t is complete, unless t gave something up
ConflictOrder == \A t, u \in 1..N : Sib(t, u) /\ ListConflict(S.acc0[t], S.acc0[u]) /\ Started(S, u) /\ t \notin S.demoted
                    => t \in S.fin
\* C10: what t declares after its narrowings so far (all of them are legal in these programs), read off the program text
Declares(t) == AccAt(prog, t, pc[t])
NarrowOrder == \A t, u \in 1..N : Sib(t, u) /\ ListConflict(Declares(t), S.acc0[u]) /\ t \notin S.fin => ~Started(S, u)
\* also by inheritance: nobody of the family of t runs next to somebody of the family of u
Families == \A t, u \in 1..N : Sib(t, u) /\ ListConflict(S.acc0[t], S.acc0[u]) /\ S.demoted = {}
                    => \A d \in Desc(u) \cup {u} : Started(S, d) => \A x \in Desc(t) \cup {t} : S.st[x] = "ended"
\* C05
FamilyComplete == \A t \in S.fin : \A d \in Desc(t) : d \in S.fin
\* C06
EventsHold == \A t \in S.fin : S.evs[t] \subseteq S.reach
\* C09
DestroyedOnce == \A t \in S.gone : t \in S.fin /\ t \in S.given
\* C19: a body that touches its data now finds what the sequential program left there
Mine(t, c) == \E i \in DOMAIN S.acc0[t] : S.acc0[t][i][2] \in {0, 1} /\ Touches(S.acc0[t][i], c[1], c[2], 0)
Sequential == \A t \in work : \A c \in Cells : Mine(t, c) => SeqCell(S, t, c[1], c[2], 0) = mem[c]
\* what is left at the end is the result of the sequential program
Final == ended0 => \A c \in Cells :
           LET w == Latest(S, {u \in 1..N : Writes(S, u, c[1], c[2], 0)}, 0)
           IN mem[c] = << w, SumAdds(S, {u \in 1..N : w = 0 \/ Before(S, w, u)}, c[1], c[2], 0) >>
\* C03, C04, C08 and the soundness of the rules for an idle system: when neither the library nor a body can go on,
\* none of the rules is broken, and only unreached events keep the main program from its end
Idle == ~ENABLED Library /\ ~ENABLED (Bodies_ \/ MainBarrier)
IdleRules == Idle => QReasons(S) = {}
\* C04: nobody waits without a reason
NoSpuriousWait == Idle => \A u \in 1..N : S.st[u] = "sub" => \E t \in 1..N : Sib(t, u) /\ t \notin S.fin /\ ListConflict(Declares(t), S.acc0[u])
IdleMeansWaiting == Idle => (ended0 \/ \E t \in 1..N : \E e \in S.evs[t] : e \notin S.reach)
\* under fairness
Terminates == <>ended0
=============================================================================
