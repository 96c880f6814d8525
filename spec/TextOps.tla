------------------------------ MODULE TextOps ------------------------------
(* Text is a sequence of code points; positions are 0-based as in Python.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

NL == 10
NONE == -1000000            \* Python's None where an integer is expected

Slice(t, s, e) == IF s >= e THEN <<>> ELSE SubSeq(t, s + 1, Min2(e, Len(t)))
Splice(t, s, e, new) == SubSeq(t, 1, s) \o new \o SubSeq(t, Max2(s, e) + 1, Len(t))

(* Python's slice.indices() for step 1, with end < start normalized.        *)
NormIndex(i, n, dflt) ==
    IF i = NONE THEN dflt
    ELSE IF i < 0 THEN Max2(i + n, 0)
    ELSE Min2(i, n)
SliceKey(s, e, n) ==
    LET a == NormIndex(s, n, 0)
        b == NormIndex(e, n, n)
    IN <<a, Max2(a, b)>>

(* A change is [s |-> start, e |-> end, t |-> new text] on the old text.    *)
(* Apply a batch of non-overlapping changes, sorted on start, where all     *)
(* positions refer to the old text.                                         *)
ApplyBatch(t, cs) ==
    LET F[i \in 0..Len(cs)] ==
            IF i = 0 THEN [out |-> <<>>, tail |-> 0]
            ELSE LET p == F[i-1] c == cs[i] IN
                 [out |-> p.out \o Slice(t, p.tail, c.s) \o c.t, tail |-> c.e]
        r == F[Len(cs)]
    IN r.out \o Slice(t, r.tail, Len(t))

(* The inverse batch: applying it to the new text gives the old text.       *)
InverseBatch(t, cs) ==
    LET F[i \in 0..Len(cs)] ==
            IF i = 0 THEN [out |-> <<>>, off |-> 0]
            ELSE LET p == F[i-1] c == cs[i] IN
                 [out |-> Append(p.out, [s |-> c.s + p.off,
                                         e |-> c.s + p.off + Len(c.t),
                                         t |-> Slice(t, c.s, c.e)]),
                  off |-> p.off + Len(c.t) - (c.e - c.s)]
    IN F[Len(cs)].out

(* find / rfind / count as Python's str methods do it (-1 if not found).    *)
MatchAt(t, sub, p) == p + Len(sub) <= Len(t) /\ \A k \in 1..Len(sub) : t[p + k] = sub[k]
Find(t, sub, from) ==
    LET S == {p \in Max2(from, 0)..(Len(t) - Len(sub)) : MatchAt(t, sub, p)}
    IN IF S = {} THEN -1 ELSE CHOOSE p \in S : \A q \in S : p <= q
RFind(t, sub, from, to) ==
    LET S == {p \in from..(Min2(to, Len(t)) - Len(sub)) : MatchAt(t, sub, p)}
    IN IF S = {} THEN -1 ELSE CHOOSE p \in S : \A q \in S : p >= q

(* The greedy, non-overlapping occurrences of sub in t, left to right.      *)
RECURSIVE OccFrom(_, _, _)
OccFrom(t, sub, from) ==
    LET p == Find(t, sub, from) IN
    IF p = -1 THEN <<>> ELSE <<p>> \o OccFrom(t, sub, p + Len(sub))
Occurrences(t, sub) == OccFrom(t, sub, 0)

Count(t, sub) == Len(Occurrences(t, sub))
============================================================================
