------------------------------ MODULE MCBlocks ------------------------------
(* All texts up to a length, all positions: the blocks partition the text.  *)
EXTENDS Blocks, TLC
CONSTANTS MaxLen, Sep
VARIABLES t
Sep1 == <<10>>
Sep2 == <<97, 32>>
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E ch \in {97, 32, 10} : t' = Append(t, ch)
RECURSIVE Join(_, _)
Join(bs, sep) == Slice(t, bs[1][2], bs[1][3]) \o (IF Len(bs) = 1 THEN <<>> ELSE sep \o Join(Tail(bs), sep))
Strip(p, e) == Moved(t, Sep, <<p, e>>, "strip", <<>>)
Laws ==
    LET bs == Split(t, Sep) IN
    /\ Join(bs, Sep) = t
    /\ Len(bs) = Count(t, Sep) + 1
    /\ \A k \in 1..Len(bs) : /\ bs[k][1] = k - 1
                             /\ Find(Slice(t, bs[k][2], bs[k][3]), Sep, 0) = -1
                             /\ ByNumber(bs, k - 1) = ByNumber(bs, k - 1 - Len(bs))
                             /\ \A p \in bs[k][2]..bs[k][3] : BlockAt(bs, p) = bs[k]
    /\ BlocksFrom(bs, 0, NONE) = bs
    /\ \A p \in 0..Len(t) : \A e \in p..Len(t) :
         LET c == Strip(p, e) IN
         /\ p <= c[1] /\ c[1] <= c[2] /\ c[2] <= e
         /\ Moved(t, Sep, c, "strip", <<>>) = c
         /\ c[1] < c[2] => t[c[1] + 1] \notin Space /\ t[c[2]] \notin Space
============================================================================
