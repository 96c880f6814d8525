------------------------------- MODULE MCHtml -------------------------------
(* A writer that wraps some characters in an element with an attribute and  *)
(* escapes everything; the reader gets back exactly the characters and the  *)
(* attribute, whatever they are.                                            *)
EXTENDS Html, TLC
CONSTANTS MaxLen
Chars == {97, 38, 60, 62, 34, 59, 10, 39}
VARIABLES r, todo, text, got, attr, gotattr
vars == <<r, todo, text, got, attr, gotattr>>
Span == <<115, 112, 97, 110>>
Init == r = R0 /\ todo = <<>> /\ text = <<>> /\ got = <<>> /\ attr = {} /\ gotattr = {}
RECURSIVE Pieces(_)
Pieces(s) == IF s = <<>> THEN <<>> ELSE
             LET Sp == {60, 62, 38, 59, 34}
                 S == {k \in 1..Len(s) : s[k] \in Sp}
                 n == IF s[1] \in Sp THEN 1 ELSE IF S = {} THEN Len(s) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
             IN <<SubSeq(s, 1, n)>> \o Pieces(SubSeq(s, n + 1, Len(s)))
RECURSIVE EscAll(_, _)
EscAll(s, a) == IF s = <<>> THEN <<>> ELSE Esc(s[1], a) \o EscAll(Tail(s), a)
Html(c, a) == IF a = <<>> THEN EscAll(c, FALSE)
              ELSE <<60>> \o Span \o <<32, 97, 61, 34>> \o EscAll(a, TRUE) \o <<34, 62>> \o EscAll(c, FALSE) \o <<60, 47>> \o Span \o <<62>>
Write == /\ todo = <<>> /\ Len(text) < MaxLen
         /\ \E c \in UNION {[1..n -> Chars] : n \in 1..2}, a \in {<<>>, <<34>>, <<38, 97>>, <<60, 62>>, <<59, 34>>} :
              /\ todo' = Pieces(Html(c, a)) /\ text' = text \o c /\ attr' = IF a = <<>> THEN attr ELSE attr \cup {a}
         /\ UNCHANGED <<r, got, gotattr>>
Read == /\ todo # <<>> /\ r' = ReadPiece(r, todo[1]) /\ got' = got \o Shown(r, todo[1]) /\ todo' = Tail(todo)
        /\ gotattr' = gotattr \cup (IF r'.stack # <<>> THEN {r'.stack[1][3]} ELSE {})
        /\ UNCHANGED <<text, attr>>
Next == Write \/ Read
WellFormed == r.ok
Same == todo = <<>> => (got = text /\ gotattr = attr /\ r.stack = <<>> /\ r.mode = "text")
=============================================================================
