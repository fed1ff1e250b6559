------------------------------- MODULE Access -------------------------------
(* The access algebra: when two declared accesses conflict, when one covers     *)
(* another, and the closures over access lists.  An access is a tuple           *)
(*    << resource, mode, lo0, hi0, lo1, hi1 >>                                  *)
(* with half-open index ranges; mode 0 write, 1 read, 2 atomic add, 3 atomic    *)
(* mul.  IO resources use the unit area.  A whole field is lo = 0, hi = INF.    *)
EXTENDS Naturals, Sequences, FiniteSets

INF == 1000000

ModeConflict(m, n) == m = 0 \/ n = 0 \/ m # n
ModeCovers(m, n)   == m = 0 \/ m = n
Overlap(l, h, l2, h2)  == ~(h <= l2 \/ h2 <= l)
Inside(l, h, l2, h2)   == l2 <= l /\ h <= h2        \* [l,h) lies in [l2,h2)

AccConflict(a, b) ==
    /\ a[1] = b[1]
    /\ ModeConflict(a[2], b[2])
    /\ Overlap(a[3], a[4], b[3], b[4])
    /\ Overlap(a[5], a[6], b[5], b[6])

\* a permits everything b permits
AccCovers(a, b) ==
    /\ a[1] = b[1]
    /\ ModeCovers(a[2], b[2])
    /\ Inside(b[3], b[4], a[3], a[4])
    /\ Inside(b[5], b[6], a[5], a[6])

ListConflict(A, B) == \E i \in DOMAIN A : \E j \in DOMAIN B : AccConflict(A[i], B[j])
ListCovers(A, B)   == \A j \in DOMAIN B : \E i \in DOMAIN A : AccCovers(A[i], B[j])

\* the cell (r, x, y) lies in access a
Touches(a, r, x, y) == a[1] = r /\ a[3] <= x /\ x < a[4] /\ a[5] <= y /\ y < a[6]
=============================================================================
