----------------------------- MODULE TaskSystem -----------------------------
(* What a user of redGrapes may rely on, as a state machine.                    *)
(*                                                                              *)
(* The state is one record S (see NewState).  For every observable event there  *)
(*  is  XReasons(S, ..) - the set of names of the rules the event would break   *)
(*                        (the action's guard is XReasons = {}), and            *)
(*  is  XEffect(S, ..)  - the successor state.                                  *)
(* MC_TaskSystem composes them into an ordinary transition system and model     *)
(* checks it; TaskTrace uses the same operators to judge recorded executions of *)
(* the real library, one event per step.                                        *)
(*                                                                              *)
(* Tasks are 1..n, 0 is the main program.  Accesses: see Access.                *)
EXTENDS Access, Integers, TLC

NewState(n) ==
  [ n      |-> n,
    st     |-> [t \in 1..n |-> "none"],   \* none sub run paused ended
    par    |-> [t \in 1..n |-> 0],
    path   |-> [t \in 1..n |-> <<>>],     \* position in the tree = sequential order (preorder)
    kids   |-> [t \in 0..n |-> <<>>],     \* in submission order
    acc    |-> [t \in 1..n |-> <<>>],     \* currently declared accesses
    acc0   |-> [t \in 1..n |-> <<>>],     \* declared at submission
    demoted|-> {},
    fin    |-> {},                        \* completed tasks
    exp    |-> [t \in 1..n |-> 0],        \* value the body returns
    evs    |-> [t \in 0..n |-> {}],       \* events created by the task
    reach  |-> {},                        \* events whose notification was called
    reachR |-> {},                        \* .. and returned
    on     |-> [t \in 0..n |-> -1],       \* event the task (or main) is paused on
    getting|-> [t \in 0..n |-> 0],        \* future the task (or main) waits for
    given  |-> {},                        \* futures consumed or dropped
    sure   |-> {},                        \* tasks whose result certainly exists
    gone   |-> {},                        \* destroyed tasks
    past   |-> {},                        \* tasks of earlier initialisations
    bar    |-> FALSE,                     \* main is inside barrier / finalize
    fincall|-> FALSE,
    calls  |-> {} ]                       \* calls that may not block: must return before quiescence

Live(S)    == {t \in 1..S.n : S.st[t] # "none"}
Started(S, t) == S.st[t] \in {"run", "paused", "ended"}

\* ------------------------------------------------------------- completion
CanFin(S, t) ==
    /\ S.st[t] = "ended"
    /\ S.evs[t] \subseteq S.reach
    /\ \A i \in DOMAIN S.kids[t] : S.kids[t][i] \in S.fin

RECURSIVE Settle(_, _)
\* t may have completed: record it and look at its parent
Settle(S, t) ==
    IF t = 0 \/ t \in S.fin \/ ~CanFin(S, t) THEN S
    ELSE Settle([S EXCEPT !.fin = @ \cup {t}], S.par[t])

\* ------------------------------------------------------------- ordering
\* earlier siblings of t, latest first irrelevant
Earlier(S, t) ==
    LET K == S.kids[S.par[t]]
        p == S.path[t][Len(S.path[t])]
    IN {K[i] : i \in 1..(p - 1)}

Blocking(S, t) == {u \in Earlier(S, t) : u \notin S.fin /\ ListConflict(S.acc[u], S.acc[t])}
Enabled(S, t)  == S.st[t] = "sub" /\ Blocking(S, t) = {}

\* lexicographic order on paths = order of the sequential program
RECURSIVE LexLess(_, _)
LexLess(p, q) ==
    IF p = <<>> THEN q # <<>>
    ELSE IF q = <<>> THEN FALSE
    ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q)
    ELSE LexLess(Tail(p), Tail(q))
Before(S, t, u) == LexLess(S.path[t], S.path[u])

\* ------------------------------------------------------------- sequential meaning of the data
Writes(S, t, r, x, y) == \E i \in DOMAIN S.acc0[t] : S.acc0[t][i][2] = 0 /\ Touches(S.acc0[t][i], r, x, y)
Adds(S, t, r, x, y)   == Cardinality({i \in DOMAIN S.acc0[t] : S.acc0[t][i][2] \in {2, 3} /\ Touches(S.acc0[t][i], r, x, y)})
RECURSIVE Latest(_, _, _)
Latest(S, W, best) ==
    IF W = {} THEN best
    ELSE LET t == CHOOSE t \in W : TRUE
         IN Latest(S, W \ {t}, IF best = 0 \/ Before(S, best, t) THEN t ELSE best)
RECURSIVE SumAdds(_, _, _, _, _)
SumAdds(S, T, r, x, y) ==
    IF T = {} THEN 0
    ELSE LET t == CHOOSE t \in T : TRUE IN Adds(S, t, r, x, y) + SumAdds(S, T \ {t}, r, x, y)

\* <<last writer, number of updates since>> the sequential program leaves in the cell when t is submitted
SeqCell(S, t, r, x, y) ==
    LET P == {u \in Live(S) \ S.past : Before(S, u, t)}
        w == Latest(S, {u \in P : Writes(S, u, r, x, y)}, 0)
        Q == {u \in P : (w = 0 \/ Before(S, w, u)) /\ Adds(S, u, r, x, y) > 0}
    IN << w, SumAdds(S, Q, r, x, y) >>

SeenOK(S, t, seen) ==
    \A i \in DOMAIN seen : SeqCell(S, t, seen[i][1], seen[i][2], seen[i][3]) = << seen[i][4], seen[i][5] >>

\* ------------------------------------------------------------- context
Chain(S, t) == [i \in 1..Len(S.path[t]) |->
                  LET RECURSIVE Up(_, _)
                      Up(u, k) == IF k = 1 THEN u ELSE Up(S.par[u], k - 1)
                  IN Up(t, i)]
CtxOK(S, t, depth, bt) == depth = -1 \/ (depth = Len(S.path[t]) /\ bt = Chain(S, t))

\* ------------------------------------------------------------- events (rules, then effect)
R(name, ok) == IF ok THEN {} ELSE {name}

SubReasons(S, t, p) == R("sub.twice", S.st[t] = "none")
SubEffect(S, t, p, acc, exp) ==
    [S EXCEPT !.st[t] = "sub", !.par[t] = p, !.acc[t] = acc, !.acc0[t] = acc, !.exp[t] = exp,
              !.kids[p] = Append(@, t),
              !.path[t] = Append(IF p = 0 THEN <<>> ELSE S.path[p], Len(S.kids[p]) + 1),
              !.calls = @ \cup {<<"submit", t>>}]
SubREffect(S, t) == [S EXCEPT !.calls = @ \ {<<"submit", t>>}]

\* why the blocking tasks are unfinished
BlockKinds(S, B) ==
    {"start.conflict"}
    \cup R("start.held", ~\E u \in B : S.st[u] = "paused")
    \cup R("start.event", ~\E u \in B : S.st[u] = "ended" /\ ~(S.evs[u] \subseteq S.reach))
    \cup R("start.kids", ~\E u \in B : S.st[u] = "ended" /\ \E i \in DOMAIN S.kids[u] : S.kids[u][i] \notin S.fin)
    \cup R("start.narrowed", B \cap S.demoted = {})
StartReasons(S, t, seen, depth, bt) ==
    IF S.st[t] # "sub" THEN {IF S.st[t] = "none" THEN "start.unsubmitted" ELSE "start.again"}
    ELSE (IF Blocking(S, t) # {} THEN BlockKinds(S, Blocking(S, t)) ELSE {})
         \cup R("start.seen", SeenOK(S, t, seen))
         \cup R("start.kidseen", S.par[t] = 0 \/ SeenOK(S, t, seen))
         \cup R("start.ctx", CtxOK(S, t, depth, bt))
         \cup R("start.destroyed", t \notin S.gone)
StartEffect(S, t) == [S EXCEPT !.st[t] = "run"]

EndReasons(S, t) == R("end.notrunning", S.st[t] = "run") \cup R("end.destroyed", t \notin S.gone)
EndEffect(S, t)  == Settle([S EXCEPT !.st[t] = "ended"], t)

MkEffect(S, a, e) == [S EXCEPT !.evs[a] = @ \cup {e}]
MkFailReasons(S, a) == R("mk.failed", a = 0)
MkFailEffect(S, a, e) == [S EXCEPT !.evs[a] = @ \ {e}]

YieldEffect(S, a, e) == IF a = 0 THEN [S EXCEPT !.on[0] = e]
                        ELSE [S EXCEPT !.st[a] = "paused", !.on[a] = e]
ResumeReasons(S, a, e, depth, bt) ==
    R("resume.notpaused", S.on[a] = e /\ (a = 0 \/ S.st[a] = "paused"))
    \cup R("resume.early", e \in S.reach)
    \cup R("resume.ctx", a = 0 \/ CtxOK(S, a, depth, bt))
    \cup R("resume.destroyed", a \notin S.gone)
ResumeEffect(S, a) == IF a = 0 THEN [S EXCEPT !.on[0] = -1] ELSE [S EXCEPT !.st[a] = "run", !.on[a] = -1]

\* the task the event belongs to may complete
Owner(S, e) == LET O == {t \in 1..S.n : e \in S.evs[t]} IN IF O = {} THEN 0 ELSE CHOOSE t \in O : TRUE
ReachEffect(S, e) == Settle([S EXCEPT !.reach = @ \cup {e}, !.calls = @ \cup {<<"reach", e>>}], Owner(S, e))
ReachREffect(S, e) == [S EXCEPT !.reachR = @ \cup {e}, !.calls = @ \ {<<"reach", e>>}]

GetEffect(S, a, t) == [S EXCEPT !.getting[a] = t, !.given = @ \cup {t}]
GetRReasons(S, a, t, v) == R("get.early", S.st[t] = "ended") \cup R("get.value", v = S.exp[t])
GetREffect(S, a, t) == [S EXCEPT !.getting[a] = 0, !.sure = @ \cup {t}]
DropEffect(S, t) == [S EXCEPT !.given = @ \cup {t}]
RdyReasons(S, t, r) == R("ready.early", r = 1 => S.st[t] = "ended") \cup R("ready.late", t \in S.sure => r = 1)

DemReasons(S, t, acc) == {}
DemEffect(S, t, acc) ==
    LET ok == ListCovers(S.acc[t], acc)
    IN [S EXCEPT !.acc[t] = IF ok THEN acc ELSE @,
                 !.demoted = IF ok THEN @ \cup {t} ELSE @,
                 !.calls = @ \cup {<<"narrow", t, IF ok THEN 1 ELSE 0>>}]
DemRReasons(S, t, r) ==
    R("narrow.refused", <<"narrow", t, 1>> \in S.calls => r = 1)
    \cup R("narrow.accepted", <<"narrow", t, 0>> \in S.calls => r = 0)
DemREffect(S, t) == [S EXCEPT !.calls = {c \in @ : ~(c[1] = "narrow" /\ c[2] = t)}]

DtorReasons(S, t) ==
    R("dtor.twice", t \notin S.gone)
    \cup R("dtor.incomplete", t \in S.fin)
    \cup R("dtor.future", t \in S.given)
DtorEffect(S, t) == [S EXCEPT !.gone = @ \cup {t}]

InitEffect(S) == [S EXCEPT !.past = Live(S)]
AllGone(S) == Live(S) \subseteq S.gone
AllFin(S)  == Live(S) \subseteq S.fin
BarEffect(S) == [S EXCEPT !.bar = TRUE]
BarRReasons(S) == R("barrier.incomplete", AllFin(S)) \cup R("barrier.undestroyed", AllGone(S))
BarREffect(S) == [S EXCEPT !.bar = FALSE]
FinEffect(S) == [S EXCEPT !.fincall = TRUE]
FinRReasons(S, threads) == R("finalize.threads", threads = 2) \cup R("finalize.incomplete", AllFin(S) /\ AllGone(S))
FinREffect(S) == [S EXCEPT !.fincall = FALSE, !.bar = FALSE]

CtxReasons(S, a, depth, bt, ev) ==
    IF a = 0 THEN R("ctx.main", depth = 0 /\ bt = <<>> /\ ev = 0)
    ELSE R("ctx.task", CtxOK(S, a, depth, bt) /\ ev = 1)

\* every thread of the library is idle and nothing is being executed
QReasons(S) ==
    LET late == {t \in 1..S.n : Enabled(S, t)}
        latep == {t \in 1..S.n : S.st[t] = "paused" /\ S.on[t] \in S.reach}
        lateg == {a \in 0..S.n : S.getting[a] # 0 /\ S.st[S.getting[a]] = "ended"}
        latec == {t \in S.fin : t \in S.given /\ t \notin S.gone}
        stray == {t \in 1..S.n : S.st[t] = "run" /\ S.getting[t] = 0}
    IN  (IF late # {} THEN {"idle.start"} ELSE {})
        \cup R("idle.start.kid", ~\E t \in late : S.par[t] # 0)
        \cup R("idle.start.narrowed", ~\E t \in late : Earlier(S, t) \cap S.demoted # {})
        \cup R("idle.start.event", ~\E t \in late : \E u \in Earlier(S, t) : S.evs[u] # {} /\ u \in S.fin)
        \cup R("idle.resume", latep = {} /\ S.on[0] \notin S.reach)
        \cup R("idle.get", lateg = {})
        \cup R("idle.destroy", latec = {})
        \cup R("idle.running", stray = {})
        \cup R("idle.barrier", S.bar => ~AllFin(S) \/ ~(Live(S) \subseteq S.given))
        \cup R("idle.submit", ~\E c \in S.calls : c[1] = "submit")
        \cup R("idle.reach", ~\E c \in S.calls : c[1] = "reach")
        \cup R("idle.narrow", ~\E c \in S.calls : c[1] = "narrow")
QEffect(S) == [S EXCEPT !.sure = @ \cup {t \in 1..S.n : S.st[t] = "ended"}]
=============================================================================
