----------------------------- MODULE AccessTree -----------------------------
(* Accesses as trees:  <<"io", m>>   m: 0 write, 1 read, 2 atomic add, 3 atomic mul          *)
(*                     <<"area", lo, hi>>   half open, 0..MAX the whole range                *)
(*                     <<"and", a1, .., an>>  <<"or", a1, .., an>>                           *)
(* -1 stands for a default constructed part: write, the whole range.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MAX
Mode(a) == IF a[2] = -1 THEN 0 ELSE a[2]
Lo(a) == IF a[2] = -1 THEN 0 ELSE a[2]
Hi(a) == IF a[3] = -1 THEN MAX ELSE a[3]
Parts(a) == 2..Len(a)
RECURSIVE Ser(_, _), Sup(_, _), Sync(_), Eq(_, _)
\* a and b have to be ordered
Ser(a, b) ==
  CASE a[1] = "io"   -> Mode(a) = 0 \/ Mode(b) = 0 \/ Mode(a) # Mode(b)
    [] a[1] = "area" -> Lo(a) < Hi(b) /\ Lo(b) < Hi(a)
    [] a[1] = "and"  -> \A k \in Parts(a) : Ser(a[k], b[k])
    [] a[1] = "or"   -> \E k \in Parts(a) : Ser(a[k], b[k])
\* a permits everything b permits
Sup(a, b) ==
  CASE a[1] = "io"   -> Mode(a) = 0 \/ Mode(a) = Mode(b)
    [] a[1] = "area" -> Lo(a) <= Lo(b) /\ Hi(b) <= Hi(a)
    [] OTHER         -> \A k \in Parts(a) : Sup(a[k], b[k])
\* a conflicts with every access of its kind
Sync(a) ==
  CASE a[1] = "io"   -> Mode(a) = 0
    [] a[1] = "area" -> Lo(a) = 0 /\ Hi(a) = MAX
    [] OTHER         -> \A k \in Parts(a) : Sync(a[k])
Eq(a, b) ==
  CASE a[1] = "io"   -> Mode(a) = Mode(b)
    [] a[1] = "area" -> Lo(a) = Lo(b) /\ Hi(a) = Hi(b)
    [] OTHER         -> \A k \in Parts(a) : Eq(a[k], b[k])

\* lists of <<resource, tree>>
LSer(A, B) == \E i \in DOMAIN A : \E j \in DOMAIN B : A[i][1] = B[j][1] /\ Ser(A[i][2], B[j][2])
LSup(A, B) == \A j \in DOMAIN B : \E i \in DOMAIN A : A[i][1] = B[j][1] /\ Sup(A[i][2], B[j][2])
LSync(A, r) == \E i \in DOMAIN A : A[i][1] = r /\ Sync(A[i][2])
=============================================================================
