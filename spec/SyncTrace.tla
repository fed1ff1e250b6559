----------------------------- MODULE SyncTrace -----------------------------
(* The wake-up primitive and the spin lock as seen by their callers.           *)
(*                                                                             *)
(* Wake-up primitive: a flag.  A notification sets it at one point of its      *)
(* call; a wait returns after it saw the flag set and cleared it.  Calls       *)
(* overlap, so the judge keeps the set K of all abstract states that are       *)
(* consistent with the calls and returns so far; an event is legal iff a state *)
(* remains.  [f flag, w waiter out/in/seen/ret, p notifications not yet done]  *)
EXTENDS TraceLib

Step(k) ==
    {[k EXCEPT !.f = TRUE, !.p = @ \ {t}] : t \in k.p}
    \cup (IF k.w = "in" /\ k.f THEN {[k EXCEPT !.w = "seen"]} ELSE {})
    \cup (IF k.w = "seen" THEN {[k EXCEPT !.w = "ret", !.f = FALSE]} ELSE {})
RECURSIVE Close(_)
Close(K) == LET N == K \cup UNION {Step(k) : k \in K} IN IF N = K THEN K ELSE Close(N)

\* after the event, before internal steps
After(s, e) ==
  CASE e[1] = "WaitC" -> {[k EXCEPT !.w = "in"] : k \in s.K}
    [] e[1] = "WaitR" -> {[k EXCEPT !.w = "out"] : k \in {x \in s.K : x.w = "ret"}}
    [] e[1] = "NotC"  -> {[k EXCEPT !.p = @ \cup {e[2]}] : k \in s.K}
    [] e[1] = "NotR"  -> {k \in s.K : e[2] \notin k.p}
    [] e[1] = "Q"     -> {k \in s.K : k.p = {} /\ (k.w = "out" \/ (k.w = "in" /\ ~k.f))}
    [] OTHER          -> s.K

SFresh(t) == [K |-> {[f |-> FALSE, w |-> "out", p |-> {}]}, holder |-> -1, want |-> {}, calls |-> {}]
SReasons(s, e) ==
  CASE e[1] = "WaitR" -> R("wait.unnotified", After(s, e) # {})
    [] e[1] = "Q"     -> R("idle.lost", s.calls # {} \/ After(s, e) # {})
                         \cup R("idle.notify", s.calls = {})
                         \cup R("idle.lock", s.want = {})
    [] e[1] = "Acq"   -> R("lock.exclusion", s.holder = -1)
    [] e[1] = "Rel"   -> R("lock.exclusion", s.holder = e[2])
    [] e[1] = "Sum"   -> R("lock.data", e[2] = e[3])
    [] OTHER          -> {}
SEffect(s, e) ==
  LET K2 == After(s, e)
      s2 == [s EXCEPT !.K = IF K2 = {} THEN {[f |-> TRUE, w |-> "out", p |-> {}]} ELSE Close(K2)]
  IN CASE e[1] = "NotC"  -> [s2 EXCEPT !.calls = @ \cup {e[2]}]
       [] e[1] = "NotR"  -> [s2 EXCEPT !.calls = @ \ {e[2]}]
       [] e[1] = "LockC" -> [s EXCEPT !.want = @ \cup {e[2]}]
       [] e[1] = "Acq"   -> [s EXCEPT !.holder = e[2], !.want = @ \ {e[2]}]
       [] e[1] = "Rel"   -> [s EXCEPT !.holder = -1]
       [] e[1] \in {"WaitC", "WaitR", "Q"} -> s2
       [] OTHER -> s
SEnd(s) == R("end.blocked", s.want = {} /\ s.calls = {})
=============================================================================
