---------------------------- MODULE MC_AccessTree ----------------------------
(* The relations of AccessTree are the ones the word "conflict" stands for: all *)
(* triples of non-empty accesses of one kind over a small index range.          *)
EXTENDS AccessTree, TLC
IO == {<<"io", m>> : m \in 0..3}
AREA == {<<"area", p[1], p[2]>> : p \in {q \in (0..MAX) \X (0..MAX) : q[1] < q[2]}}
F1 == {<<"and", i, <<"and", x>> >> : i \in IO, x \in AREA}
F2 == {<<"and", i, <<"and", x, y>> >> : i \in {<<"io", 0>>, <<"io", 1>>, <<"io", 2>>}, x \in AREA, y \in AREA}
OR == {<<"or", i, x>> : i \in IO, x \in AREA}
CONSTANT Kind
KindSet == CASE Kind = 1 -> F1 [] Kind = 2 -> F2 [] Kind = 3 -> OR [] Kind = 4 -> {<<"or", i, x>> : i \in IO, x \in F1}
VARIABLES a, b, c
Init == a \in KindSet /\ b \in KindSet /\ c \in (IF Kind = 2 THEN {a, b, <<"and", <<"io", 0>>, <<"and", <<"area", 0, MAX>>, <<"area", 1, MAX>> >> >>} ELSE IF Kind = 4 THEN {a, b} ELSE KindSet)
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
\* indices an area access touches, as points
In(x, k) == Lo(x) <= k /\ k < Hi(x)
Cell1(x) == {k \in 0..(MAX - 1) : In(x[3][2], k)}
Cell2(x) == {p \in (0..(MAX - 1)) \X (0..(MAX - 1)) : In(x[3][2], p[1]) /\ In(x[3][3], p[2])}
Cells(x) == IF Kind = 1 THEN Cell1(x) ELSE Cell2(x)
Symmetric == Ser(a, b) = Ser(b, a)
Reflexive == Sup(a, a) /\ Eq(a, a)
Transitive == Sup(a, b) /\ Sup(b, c) => Sup(a, c)
Antisymmetric == Sup(a, b) /\ Sup(b, a) => Eq(a, b)
Monotone == Sup(a, b) /\ Ser(b, c) => Ser(a, c)
SyncAll == Sync(a) => Ser(a, b)
Meaning == Kind \in {1, 2} =>
   /\ Ser(a, b) = (Cells(a) \cap Cells(b) # {} /\ (Mode(a[2]) = 0 \/ Mode(b[2]) = 0 \/ Mode(a[2]) # Mode(b[2])))
   /\ Sup(a, b) = (Cells(b) \subseteq Cells(a) /\ (Mode(a[2]) = 0 \/ Mode(a[2]) = Mode(b[2])))
Lists == /\ LSer(<< <<1, a>>, <<2, b>> >>, << <<2, c>> >>) = Ser(b, c)
         /\ LSup(<< <<1, a>>, <<1, b>> >>, << <<1, c>> >>) = (Sup(a, c) \/ Sup(b, c))
=============================================================================
