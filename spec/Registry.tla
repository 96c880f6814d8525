------------------------------ MODULE Registry ------------------------------
(* A registry is a set of entries with unique keys                          *)
(*   [q, cls, name, desc, section, author, aliases, filenames, mimetypes,   *)
(*    guesses]                                                              *)
(* (names are code sequences; filenames etc. sequences of <<pattern, weight>>*)
(* with integer weights) and a fallback: the number of another registry or 0*)
EXTENDS Integers, Sequences, FiniteSets
RLow(c) == IF c \in 65..90 \/ c \in (192..222) \ {215} THEN c + 32 ELSE c
RLower(s) == <<>> \o [k \in 1..Len(s) |-> RLow(s[k])]
Elems(s) == {s[k] : k \in 1..Len(s)}
\* glob patterns: * ? [abc] [!abc] [a-c]
ClassEnd(p, i) == LET from == IF p[i + 1] = 33 THEN i + 3 ELSE i + 2
                      S == {j \in from..Len(p) : p[j] = 93}
                  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
InClass(p, a, b, c) == \/ \E k \in a..b : p[k] = c /\ ~(k > a /\ k < b /\ p[k] = 45)
                       \/ \E k \in a..(b - 2) : p[k + 1] = 45 /\ c \in p[k]..p[k + 2]
RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, k) ==
    IF i > Len(p) THEN k > Len(s)
    ELSE IF p[i] = 42 THEN \E j \in k..(Len(s) + 1) : Glob(p, i + 1, s, j)
    ELSE IF k > Len(s) THEN FALSE
    ELSE IF p[i] = 63 THEN Glob(p, i + 1, s, k + 1)
    ELSE IF p[i] = 91 /\ i + 2 <= Len(p) /\ ClassEnd(p, i) > 0
         THEN LET e == ClassEnd(p, i) neg == p[i + 1] = 33
              IN InClass(p, IF neg THEN i + 2 ELSE i + 1, e - 1, s[k]) # neg /\ Glob(p, e + 1, s, k + 1)
    ELSE p[i] = s[k] /\ Glob(p, i + 1, s, k + 1)
Occurs(x, s) == \E k \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, k, k + Len(x) - 1) = x
Best(S) == IF S = {} THEN 0 ELSE CHOOSE w \in S : \A v \in S : v <= w
RECURSIVE AddUp(_, _, _)
AddUp(g, s, k) == IF k = 0 THEN 0 ELSE AddUp(g, s, k - 1) + (IF Occurs(g[k][1], s) THEN g[k][2] ELSE 0)
Examined == 5000
FileWeight(e, f) == IF f = <<>> THEN 0 ELSE Best({x[2] : x \in {x \in Elems(e.filenames) : Glob(x[1], 1, f, 1)}})
MimeWeight(e, m) == IF m = <<>> THEN 0 ELSE Best({x[2] : x \in {x \in Elems(e.mimetypes) : x[1] = m}})
TextWeight(e, c) == AddUp(e.guesses, IF Len(c) > Examined THEN SubSeq(c, 1, Examined) ELSE c, Len(e.guesses))
\* the weights of the suggestions, as a set of <<key, weight>>: the contents count if name and
\* type say nothing, or give no single best entry
Suggested(r, f, m, c) ==
    LET W == {<<e.q, FileWeight(e, f) + MimeWeight(e, m)>> : e \in r}
        P == {x \in W : x[2] > 0}
        top == {x \in P : \A y \in P : y[2] <= x[2]}
        cont == c # <<>> /\ Cardinality(top) # 1
    IN IF ~cont THEN P
       ELSE LET among == IF P = {} THEN r ELSE {e \in r : \E x \in P : x[1] = e.q}
                V == {<<e.q, FileWeight(e, f) + MimeWeight(e, m) + TextWeight(e, c)>> : e \in among}
            IN {x \in V : x[2] > 0}
\* the entries that may be returned for a name: exact name, alias, ignoring case, class name
Named(r, n) ==
    LET x == RLower(n)
        A == {e \in r : e.name = n}
        L == {e \in r : n \in Elems(e.aliases)}
        I == {e \in r : RLower(e.name) = x \/ \E a \in Elems(e.aliases) : RLower(a) = x}
        K == {e \in r : RLower(e.cls) = x}
    IN {e.q : e \in IF A # {} THEN A ELSE IF L # {} THEN L ELSE IF I # {} THEN I ELSE K}
Bests(S) == {x[1] : x \in {x \in S : \A y \in S : y[2] <= x[2]}}
RECURSIVE FindIn(_, _, _, _, _, _)
\* regs: sequence of [entries, fb]; the keys that may be found
FindIn(regs, i, n, f, m, c) ==
    IF i = 0 THEN {}
    ELSE LET S == IF n # <<>> THEN Named(regs[i].entries, n) ELSE Bests(Suggested(regs[i].entries, f, m, c))
         IN IF S # {} THEN S ELSE FindIn(regs, regs[i].fb, n, f, m, c)
----------------------------------------------------------------------------
Without(r, q) == {e \in r : e.q # q}
Put(r, e) == Without(r, e.q) \cup {e}
EntryOf(r, q) == CHOOSE e \in r : e.q = q
Has(r, q) == \E e \in r : e.q = q
Plus == <<32, 43, 32>>
Or(a, b) == IF a # <<>> THEN a ELSE b
Inherited(e, tpl) ==
    [q |-> e.q, cls |-> e.cls, name |-> Or(e.name, tpl.name), desc |-> Or(e.desc, tpl.desc), section |-> Or(e.section, tpl.section),
     author |-> IF e.author = <<>> THEN tpl.author
                ELSE IF tpl.author = <<>> \/ tpl.author = e.author THEN e.author ELSE tpl.author \o Plus \o e.author,
     aliases |-> tpl.aliases \o e.aliases, filenames |-> tpl.filenames \o e.filenames,
     mimetypes |-> tpl.mimetypes \o e.mimetypes, guesses |-> tpl.guesses \o e.guesses]
\* adding entry e to registry r, inheriting from the entry with key h ("" for none): [ok, r]
Added(r, e, h) ==
    IF h # "" /\ ~Has(r, h) THEN [ok |-> FALSE, r |-> r]
    ELSE LET x == IF h = "" THEN e ELSE Inherited(e, EntryOf(r, h))
             base == IF h = "" THEN r ELSE Without(r, h)
         IN IF x.name = <<>> \/ x.desc = <<>> THEN [ok |-> FALSE, r |-> r] ELSE [ok |-> TRUE, r |-> Put(base, x)]
============================================================================
