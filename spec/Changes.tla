------------------------------ MODULE Changes ------------------------------
(* Queued changes and how they combine. A change is [n: text after it,      *)
(* s: start, r: removed, a: added]; s = -1: nothing.                        *)
EXTENDS TextOps

NoChange == [n |-> <<>>, s |-> -1, r |-> 0, a |-> 0]
Combine(c, d) ==
    IF c.s = -1 THEN d
    ELSE LET end == Max2(c.s + c.a, d.s + d.r)
             s == Min2(c.s, d.s)
         IN [n |-> d.n, s |-> s, r |-> c.r + end - c.a - s, a |-> end - d.r + d.a - s]
CombineAll(q) ==
    LET F[i \in 0..Len(q)] == IF i = 0 THEN NoChange ELSE Combine(F[i-1], q[i]) IN F[Len(q)]
(* c describes a change from old to c.n                                     *)
Covers(old, c) ==
    /\ 0 <= c.s /\ 0 <= c.r /\ 0 <= c.a /\ c.s + c.r <= Len(old) /\ c.s + c.a <= Len(c.n)
    /\ Slice(old, 0, c.s) = Slice(c.n, 0, c.s)
    /\ Slice(old, c.s + c.r, Len(old)) = Slice(c.n, c.s + c.a, Len(c.n))
============================================================================
