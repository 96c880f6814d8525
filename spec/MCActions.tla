------------------------------ MODULE MCActions -----------------------------
(* Objects are created on demand in any order: identity follows the path,   *)
(* containment is a partial order with & as the greatest common element.    *)
EXTENDS Actions
CONSTANTS Names, Depth, MaxObjects
VARIABLES ids
Init == ids = <<>>
Paths == UNION {[1..n -> Names] : n \in 1..Depth}
Request(p) == IF Known(ids, p) THEN UNCHANGED ids ELSE ids' = Learn(ids, p, Cardinality(DOMAIN ids) + 1)
Next == Cardinality(DOMAIN ids) < MaxObjects
        /\ \E p \in Paths : (Len(p) = 1 \/ Known(ids, Prefix(p, Len(p) - 1))) /\ Request(p)
Unique == \A p, q \in DOMAIN ids : (ids[p] = ids[q]) = (p = q)
Order == \A p, q, r \in DOMAIN ids :
    /\ IsIn(p, p)
    /\ IsIn(p, q) /\ IsIn(q, p) => p = q
    /\ IsIn(p, q) /\ IsIn(q, r) => IsIn(p, r)
    /\ Meet(p, q) = Meet(q, p)
    /\ IsIn(p, r) /\ IsIn(q, r) <=> Meet(p, q) # <<>> /\ IsIn(Meet(p, q), r)
    /\ IsIn(p, q) <=> \E k \in 1..Len(p) : Ancestry(p)[k] = q
============================================================================
