-------------------------------- MODULE Words -------------------------------
(* What generated expressions must match.                                   *)
EXTENDS Regex
MaxOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
(* length of the longest word of ws at position p of s, -1: none            *)
LongestWord(ws, s, p) == MaxOf({Len(ws[k]) : k \in {k \in 1..Len(ws) : MatchAt(s, ws[k], p)}})
IsOneOf(ws, s) == \E k \in 1..Len(ws) : ws[k] = s
(* tokens <<pos, end>> of an expression for pre, a word of ws, suf          *)
RECURSIVE WordTokens(_, _, _, _, _)
WordTokens(ws, pre, suf, s, p) ==
    IF p > Len(s) THEN <<>>
    ELSE LET n == MaxOf({Len(ws[k]) : k \in {k \in 1..Len(ws) : MatchAt(s, pre \o ws[k] \o suf, p)}})
             e == p + Len(pre) + n + Len(suf)
         IN IF n = -1 \/ e = p THEN WordTokens(ws, pre, suf, s, p + 1)
            ELSE <<<<p, e>>>> \o WordTokens(ws, pre, suf, s, e)
(* the string a pattern AST is fixed to, Unfixed if it is not fixed         *)
Unfixed == <<-1>>
RECURSIVE Fixed(_)
Fixed(p) ==
    CASE p.t = "lit" -> p.s
      [] p.t = "set" -> IF Len(p.s) = 1 /\ ~ p.neg THEN p.s ELSE Unfixed
      [] p.t = "cat" -> LET f == <<>> \o [k \in 1..Len(p.xs) |-> Fixed(p.xs[k])]
                        IN IF \E k \in 1..Len(f) : f[k] = Unfixed THEN Unfixed ELSE FlattenSeq(f)
      [] OTHER -> Unfixed
PatTokens(p, ic, s) == LET ms == SelectSeq(Matches(p, 0, s, 0, ic, FALSE), LAMBDA m : m.e > m.s)
                       IN [k \in 1..Len(ms) |-> <<ms[k].s, ms[k].e>>]
============================================================================
