------------------------------- MODULE Actions ------------------------------
(* A standard action is its path of names. ids: the object created for each *)
(* path (a function from paths to object numbers).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prefix(p, n) == SubSeq(p, 1, n)
Ancestry(p) == [k \in 1..Len(p) |-> Prefix(p, Len(p) + 1 - k)]      \* itself first
IsIn(p, q) == Len(q) <= Len(p) /\ Prefix(p, Len(q)) = q             \* p in q
HasName(p, n) == \E k \in 1..Len(p) : p[k] = n
Meet(p, q) ==
    LET S == {k \in 0..Len(p) : k <= Len(q) /\ Prefix(p, k) = Prefix(q, k)}
    IN Prefix(p, CHOOSE k \in S : \A j \in S : j <= k)
RECURSIVE Dotted(_)
Dotted(p) == IF Len(p) = 1 THEN p[1] ELSE Dotted(Prefix(p, Len(p) - 1)) \o "." \o p[Len(p)]
(* asking for the action of path p gave object i                            *)
Known(ids, p) == p \in DOMAIN ids
Agrees(ids, p, i) == IF Known(ids, p) THEN ids[p] = i ELSE \A q \in DOMAIN ids : ids[q] # i
Learn(ids, p, i) == IF Known(ids, p) THEN ids ELSE (p :> i) @@ ids
============================================================================
