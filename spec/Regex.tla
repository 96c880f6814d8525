------------------------------- MODULE Regex --------------------------------
(* The subset of regular expressions used in generated languages, with the  *)
(* (ordered, backtracking) meaning Python's re module gives them.           *)
(*   lit s | set s neg | cat xs | alt xs | rep x lo hi lazy | cap n x |     *)
(*   la x neg (lookahead) | eol ($ in MULTILINE mode) | bol                 *)
(* Ends(p, ...) is the ordered sequence of [e, c]: end position, captures.  *)
EXTENDS TextOps

Fold(c, ic) == IF ic /\ c \in 65..90 THEN c + 32 ELSE c
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

SetHas(p, ch, ic) ==
    LET m == IF ic THEN \E i \in 1..Len(p.s) : Fold(p.s[i], TRUE) = Fold(ch, TRUE) ELSE InSeq(ch, p.s)
    IN IF p.neg THEN ~ m ELSE m

LitAt(s, text, pos, ic) ==
    /\ pos + Len(s) <= Len(text)
    /\ \A k \in 1..Len(s) : Fold(text[pos + k], ic) = Fold(s[k], ic)

(* end of the longest run of characters in set p, at most max characters    *)
RECURSIVE RunEnd(_, _, _, _, _)
RunEnd(p, text, pos, ic, max) ==
    IF max > 0 /\ pos < Len(text) /\ SetHas(p, text[pos + 1], ic)
    THEN RunEnd(p, text, pos + 1, ic, max - 1) ELSE pos

RECURSIVE Ends(_, _, _, _, _), CatEnds(_, _, _, _, _, _), AltEnds(_, _, _, _, _, _),
          RepEnds(_, _, _, _, _, _, _), Flat(_, _, _, _, _, _)

Ends(p, text, pos, caps, ic) ==
    CASE p.t = "lit" -> IF LitAt(p.s, text, pos, ic) THEN <<[e |-> pos + Len(p.s), c |-> caps]>> ELSE <<>>
      [] p.t = "set" -> IF pos < Len(text) /\ SetHas(p, text[pos + 1], ic)
                        THEN <<[e |-> pos + 1, c |-> caps]>> ELSE <<>>
      [] p.t = "cat" -> CatEnds(p.xs, 1, text, pos, caps, ic)
      [] p.t = "alt" -> AltEnds(p.xs, 1, text, pos, caps, ic)
      [] p.t = "rep" ->
            IF p.x.t = "set"
            THEN LET hi == RunEnd(p.x, text, pos, ic, p.hi)
                     n == hi - pos - p.lo + 1
                 IN IF n <= 0 THEN <<>>
                    ELSE [i \in 1..n |-> [e |-> IF p.lazy THEN pos + p.lo + i - 1 ELSE hi + 1 - i, c |-> caps]]
            ELSE RepEnds(p.x, p.lo, p.hi, text, pos, caps, ic)
      [] p.t = "cap" ->
            LET r == Ends(p.x, text, pos, caps, ic) IN
            [i \in 1..Len(r) |-> [r[i] EXCEPT !.c[p.n] = <<pos, r[i].e>>]]
      [] p.t = "la" -> LET r == Ends(p.x, text, pos, caps, ic) IN
            IF r # <<>> /\ ~ p.neg THEN <<[e |-> pos, c |-> r[1].c]>>
            ELSE IF r = <<>> /\ p.neg THEN <<[e |-> pos, c |-> caps]>> ELSE <<>>
      [] p.t = "eol" -> IF pos = Len(text) \/ text[pos + 1] = NL THEN <<[e |-> pos, c |-> caps]>> ELSE <<>>
      [] p.t = "bol" -> IF pos = 0 \/ text[pos] = NL THEN <<[e |-> pos, c |-> caps]>> ELSE <<>>

(* continue every end in rs (from index i on) with xs[k..]                  *)
Flat(rs, i, xs, k, text, ic) ==
    IF i > Len(rs) THEN <<>>
    ELSE CatEnds(xs, k, text, rs[i].e, rs[i].c, ic) \o Flat(rs, i + 1, xs, k, text, ic)
CatEnds(xs, k, text, pos, caps, ic) ==
    IF k > Len(xs) THEN <<[e |-> pos, c |-> caps]>>
    ELSE LET rs == Ends(xs[k], text, pos, caps, ic) IN
         IF k = Len(xs) THEN rs ELSE Flat(rs, 1, xs, k + 1, text, ic)
AltEnds(xs, k, text, pos, caps, ic) ==
    IF k > Len(xs) THEN <<>>
    ELSE Ends(xs[k], text, pos, caps, ic) \o AltEnds(xs, k + 1, text, pos, caps, ic)
RepEnds(x, lo, hi, text, pos, caps, ic) ==
    LET stop == IF lo <= 0 THEN <<[e |-> pos, c |-> caps]>> ELSE <<>> IN
    IF hi = 0 THEN stop
    ELSE LET rs == SelectSeq(Ends(x, text, pos, caps, ic), LAMBDA r : r.e > pos)
             F[i \in 0..Len(rs)] == IF i = 0 THEN <<>>
                 ELSE F[i-1] \o RepEnds(x, lo - 1, hi - 1, text, rs[i].e, rs[i].c, ic)
         IN F[Len(rs)] \o stop

NoCaps(n) == [i \in 1..n |-> <<-1, -1>>]
(* the match of p at pos as [ok, e, c]; nonempty: the match may not be empty *)
MatchPat(p, ng, text, pos, ic, nonempty) ==
    LET rs == Ends(p, text, pos, NoCaps(ng), ic)
        ok == IF nonempty THEN SelectSeq(rs, LAMBDA r : r.e > pos) ELSE rs
    IN IF ok = <<>> THEN [ok |-> FALSE, e |-> -1, c |-> <<>>]
       ELSE [ok |-> TRUE, e |-> ok[1].e, c |-> ok[1].c]
(* all matches of a pattern: after an empty match the next one at the same  *)
(* position may not be empty                                                *)
RECURSIVE Matches(_, _, _, _, _, _)
Matches(p, ng, r, pos, ic, must) ==
    IF pos > Len(r) THEN <<>>
    ELSE LET m == MatchPat(p, ng, r, pos, ic, must) IN
         IF m.ok THEN <<[s |-> pos, e |-> m.e, c |-> m.c]>> \o Matches(p, ng, r, m.e, ic, m.e = pos)
         ELSE Matches(p, ng, r, pos + 1, ic, FALSE)
============================================================================
