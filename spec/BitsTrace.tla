----------------------------- MODULE BitsTrace -----------------------------
(* Worker availability: one bit per worker, atomic set and get, searching and  *)
(* claiming.  Calls overlap; for every bit the judge keeps the set of all      *)
(* states [v value, p pending calls, d calls that took effect <<thread,        *)
(* previous value>>] consistent with what was seen.  Bits never mentioned by   *)
(* a call keep their initial value FALSE and are not represented.              *)
EXTENDS TraceLib
Zero == {[v |-> FALSE, p |-> {}, d |-> {}]}
\* p: <<thread, kind>>, kind "t"/"f" set, "g" get, "c" claim
Apply(k, o) ==
  CASE o[2] = "t" -> {[v |-> TRUE,  p |-> k.p \ {o}, d |-> k.d \cup {<<o[1], k.v>>}]}
    [] o[2] = "f" -> {[v |-> FALSE, p |-> k.p \ {o}, d |-> k.d \cup {<<o[1], k.v>>}]}
    [] o[2] = "g" -> {[k EXCEPT !.p = @ \ {o}, !.d = @ \cup {<<o[1], k.v>>}]}
    [] o[2] = "c" -> IF k.v THEN {[v |-> FALSE, p |-> k.p \ {o}, d |-> k.d \cup {<<o[1], TRUE>>}]} ELSE {}
RECURSIVE Close(_)
Close(K) == LET N == K \cup UNION {UNION {Apply(k, o) : o \in k.p} : k \in K} IN IF N = K THEN K ELSE Close(N)
Call(K, o) == Close({[k EXCEPT !.p = @ \cup {o}] : k \in K})
Ret(K, t, x) == {[k EXCEPT !.d = @ \ {<<t, x>>}] : k \in {q \in K : <<t, x>> \in q.d}}
\* a claim of t that did not take this bit
NotTaken(K, t) == {[k EXCEPT !.p = @ \ {<<t, "c">>}] : k \in {q \in K : <<t, "c">> \in q.p}}

NoP == [on |-> FALSE, ex |-> FALSE, must |-> {}, may |-> {}, seen |-> {}, last |-> -1, claim |-> FALSE]
BFresh(t) ==
  LET bits == {t.ev[j][3] : j \in {x \in DOMAIN t.ev : t.ev[x][1] \in {"SetC", "GetC"}}} IN
  [n |-> 0, K |-> [b \in bits |-> Zero], P |-> [x \in 0..(t.n - 1) |-> NoP], fin |-> {}]
K(s, b) == IF b \in DOMAIN s.K THEN s.K[b] ELSE Zero
CanBe(s, b, x) == \E k \in K(s, b) : k.v = x
Surely(s, b, x) == \A k \in K(s, b) : k.v = x
Track(s) == [s EXCEPT !.P = [t \in DOMAIN @ |-> IF ~@[t].on THEN @[t] ELSE
                [@[t] EXCEPT !.must = {b \in @ : Surely(s, b, s.P[t].ex)},
                             !.may = @ \cup {b \in DOMAIN s.K : CanBe(s, b, s.P[t].ex)}]]]
Exists(s, b) == b \in 0..(s.n - 1)
Begin(s, x) == [on |-> TRUE, ex |-> x, must |-> {b \in 0..(s.n - 1) : Surely(s, b, x)}, may |-> {b \in 0..(s.n - 1) : CanBe(s, b, x)},
                seen |-> {}, last |-> -1, claim |-> FALSE]
B1(x) == x = 1
NewK(s, e) ==
  CASE e[1] = "SetC" -> [s.K EXCEPT ![e[3]] = Call(@, <<e[2], IF B1(e[4]) THEN "t" ELSE "f">>)]
    [] e[1] = "GetC" -> [s.K EXCEPT ![e[3]] = Call(@, <<e[2], "g">>)]
    [] e[1] \in {"SetR", "GetR"} -> [s.K EXCEPT ![e[3]] = Ret(@, e[2], B1(e[4]))]
    [] e[1] = "ClaimC" -> [b \in DOMAIN s.K |-> Call(s.K[b], <<e[2], "c">>)]
    [] e[1] = "ClaimR" -> [b \in DOMAIN s.K |-> IF b = e[3] THEN Ret(s.K[b], e[2], TRUE) ELSE NotTaken(s.K[b], e[2])]
    [] OTHER -> s.K
Lost(s, e) == \E b \in DOMAIN s.K : NewK(s, e)[b] = {}
BReasons(s, e) ==
  CASE e[1] \in {"SetR", "GetR"} -> R("set.previous", NewK(s, e)[e[3]] # {})
    [] e[1] = "Visit"  -> R("probe.range", Exists(s, e[3])) \cup R("probe.state", e[3] \in s.P[e[2]].may)
    [] e[1] = "ProbeR" -> LET p == s.P[e[2]] ok(b) == e[4] > 0 /\ b % e[4] = e[5] IN
                          IF e[3] = -1 THEN R("probe.missed", p.must \subseteq p.seen) \cup R("probe.result", ~\E b \in p.seen : ok(b))
                          ELSE R("probe.result", e[3] = p.last /\ ok(e[3]))
    [] e[1] = "ClaimR" -> IF e[3] = -1 THEN R("claim.missed", s.P[e[2]].must = {}) \cup R("claim.twice", ~Lost(s, e))
                          ELSE R("claim.range", Exists(s, e[3])) \cup R("claim.twice", e[3] \in DOMAIN s.K /\ ~Lost(s, e))
    [] e[1] = "FinalR" -> R("final", \A b \in 0..(s.n - 1) : \E k \in K(s, b) : k.v = (b \in s.fin))
    [] e[1] = "Size"   -> R("size", e[2] > 0)
    [] OTHER -> {}
BEffect(s, e) ==
  CASE e[1] = "Size"   -> [s EXCEPT !.n = e[2]]
    [] e[1] = "ProbeC" -> [s EXCEPT !.P[e[2]] = [Begin(s, B1(e[3])) EXCEPT !.must = IF B1(e[5]) THEN @ \ {e[4]} ELSE @]]
    [] e[1] = "Visit"  -> [s EXCEPT !.P[e[2]].seen = @ \cup {e[3]}, !.P[e[2]].last = e[3]]
    [] e[1] = "ProbeR" -> [s EXCEPT !.P[e[2]] = NoP]
    [] e[1] = "ClaimC" -> Track([s EXCEPT !.K = NewK(s, e), !.P[e[2]] = Begin(s, TRUE)])
    [] e[1] = "ClaimR" -> LET N == NewK(s, e) IN
                          [s EXCEPT !.K = [b \in DOMAIN N |-> IF N[b] = {} THEN s.K[b] ELSE N[b]], !.P[e[2]] = NoP]
    [] e[1] \in {"SetC", "GetC", "SetR", "GetR"} -> LET N == NewK(s, e) IN
                          Track([s EXCEPT !.K = [b \in DOMAIN N |-> IF N[b] = {} THEN s.K[b] ELSE N[b]]])
    [] e[1] = "Final"  -> [s EXCEPT !.fin = @ \cup {e[2]}]
    [] OTHER -> s
BEnd(s) == {}
=============================================================================
