------------------------------ MODULE Programs ------------------------------
(* Bounded-exhaustive families of task programs.  A program is a record         *)
(*   par  : par[t] < t is the parent of task t (0: the main program)            *)
(*   acc  : acc[t] is the list of accesses task t declares                      *)
(*   body : body[t] is the sequence of commands of task t, body[0] of main      *)
(* Commands: <<"submit", k>> <<"mkev", e>> <<"yield", e>> <<"demote", accs>>    *)
(*           <<"get", k>> <<"drop", k>>                                         *)
(* The same set is model checked (MC_TaskSystem), and executed by the real      *)
(* library (GenPrograms writes it out for drv/tasks.cpp).                       *)
EXTENDS Access, Integers, TLC
CONSTANTS N,        \* number of tasks
          Family    \* which family (see below)

W(r) == <<r, 0, 0, 1, 0, 1>>
Rd(r) == <<r, 1, 0, 1, 0, 1>>
Ad(r) == <<r, 2, 0, 1, 0, 1>>
\* resource 9 is a vector of 3: areas
V(m, l, h) == <<9, m, l, h, 0, 1>>

\* shape: parents; all of depth <= 3
Shapes == {p \in [1..N -> 0..(N - 1)] : p[1] = 0 /\ \A t \in 1..N : p[t] < t}
\* the children of t in order
Kids(p, t) == SelectSeq([i \in 1..N |-> i], LAMBDA k : p[k] = t)
Subs(ks) == [i \in DOMAIN ks |-> <<"submit", ks[i]>>]
\* events of task t
EvA(t) == 10 + t
EvB(t) == 20 + t

AccLists ==
  CASE Family = "conflict" -> {<<>>, <<W(1)>>, <<Rd(1)>>, <<Ad(1)>>, <<W(1), Rd(2)>>, <<Rd(1), W(2)>>}
    [] Family = "areas"    -> {<<V(0, 0, 2)>>, <<V(0, 1, 3)>>, <<V(1, 0, 3)>>, <<V(0, 2, 3), V(1, 0, 1)>>, <<V(0, 0, INF)>>, <<V(2, 0, 2)>>}
    [] Family = "nest"     -> {<<>>, <<W(1)>>, <<Rd(1)>>}
    [] Family = "narrow"   -> {<<W(1)>>, <<Rd(1)>>, <<W(1), W(2)>>}
    [] Family = "futures"  -> {<<>>, <<W(1)>>}
    [] OTHER -> {<<W(1)>>, <<Rd(1)>>}
ShapesF ==
  CASE Family = "conflict" -> {p \in Shapes : \A t \in 1..N : p[t] = 0}
    [] Family = "areas"    -> {p \in Shapes : \A t \in 1..N : p[t] = 0}
    [] Family = "nest"     -> {p \in Shapes : \E t \in 1..N : p[t] # 0}
    [] Family = "narrow"   -> {p \in Shapes : Cardinality({t \in 1..N : p[t] # 0}) <= 1}
    [] OTHER -> Shapes

\* bodies: what a task does besides submitting its children ks
Bodies(t, ks, A) ==
  LET s == Subs(ks)
      plain == {s}
      ev == {Append(s, <<"mkev", EvA(t)>>)}
      pause == {Append(s, <<"yield", EvA(t)>>)} \cup (IF ks # <<>> THEN {<< <<"yield", EvA(t)>> >> \o s} ELSE {})
      gets == IF ks # <<>> THEN {s \o << <<"get", ks[1]>> >>, s \o << <<"yield", EvA(t)>>, <<"get", ks[Len(ks)]>> >>} ELSE {}
      weaker(a) == IF a[2] = 0 THEN <<a[1], 1, a[3], a[4], a[5], a[6]>> ELSE a
      dem == IF A = <<>> THEN {} ELSE
               { s \o << <<"demote", [i \in DOMAIN A |-> weaker(A[i])]>>, <<"yield", EvA(t)>> >>,
                 s \o << <<"demote", Tail(A)>>, <<"yield", EvA(t)>> >>,
                 << <<"yield", EvB(t)>>, <<"demote", Tail(A)>>, <<"mkev", EvA(t)>> >> \o s }
  IN CASE Family \in {"conflict", "areas"} -> plain \cup ev \cup pause
       [] Family = "nest" -> plain \cup ev \cup pause
       [] Family = "futures" -> plain \cup pause \cup gets
       [] Family = "narrow" -> plain \cup dem
       [] OTHER -> plain

\* main: submits the roots; a future may be asked for in between
RootSeqs(p) ==
  LET r == Kids(p, 0)
      s == Subs(r)
  IN {s} \cup (IF Family = "futures" THEN {<<Head(s)>> \o << <<"get", r[1]>> >> \o Tail(s)} ELSE {})

\* a program respects the rules a user has to respect: children inside the accesses of their parent at their submission,
\* and a narrowing keeps what submitted children need
AccAt(prog, t, i) ==
  LET D == {j \in 1..(i - 1) : prog.body[t][j][1] = "demote"}
  IN IF D = {} THEN prog.acc[t] ELSE prog.body[t][CHOOSE j \in D : \A k \in D : k <= j][2]
Legal(prog) ==
  \A t \in 1..N : \A i \in DOMAIN prog.body[t] :
     LET c == prog.body[t][i] IN
     /\ c[1] = "submit" => ListCovers(AccAt(prog, t, i), prog.acc[c[2]])
     /\ c[1] = "demote" => \A j \in 1..(i - 1) : prog.body[t][j][1] = "submit" => ListCovers(c[2], prog.acc[prog.body[t][j][2]])

Programs ==
  UNION { UNION { LET B == [t \in 1..N |-> Bodies(t, Kids(p, t), a[t])]
                      All == {b \in [1..N -> UNION {B[t] : t \in 1..N}] : \A t \in 1..N : b[t] \in B[t]}
                  IN {q \in {[par |-> p, acc |-> a, body |-> b, main |-> m] : b \in All, m \in RootSeqs(p)} : Legal(q)}
                  : a \in {x \in [1..N -> AccLists] : \A t \in 1..N : p[t] = 0 \/ ListCovers(x[p[t]], x[t])} }
          : p \in ShapesF }
=============================================================================
