------------------------------- MODULE Formats ------------------------------
(* The format of every character. A format is a set of tags, {} is no       *)
(* format. Theme: [lang, base, addbase, tab, unparsed]; lang 0 is the       *)
(* default theme. S: [fl, par, langs: language of every lexicon, root].     *)
EXTENDS Nav
SetOf(s) == {s[k] : k \in 1..Len(s)}
ThemeFor(themes, lang) ==
    LET X == {k \in 1..Len(themes) : themes[k].lang = lang}
        D == {k \in 1..Len(themes) : themes[k].lang = 0}
    IN themes[CHOOSE k \in (IF X # {} THEN X ELSE D) : TRUE]
Default(themes) == ThemeFor(themes, 0)
(* format f added to format b: a property (last digit) that is in both is   *)
(* that of f                                                                *)
OnTop(b, f) == f \cup {x \in b : \A y \in f : y % 10 # x % 10}
Base(th) == IF th.addbase THEN SetOf(th.base) ELSE {}
LangOf(S, k) == LET c == S.par[k] IN S.langs[IF c = 0 THEN S.root ELSE S.fl[c][3]]
TokenFormat(S, themes, k) ==
    LET th == ThemeFor(themes, LangOf(S, k))
        f == OnTop(Base(th), SetOf(th.tab[S.fl[k][5] + 1]))
    IN f
HasDefault(themes) == \E k \in 1..Len(themes) : themes[k].lang = 0
(* allowed formats of the text between the tokens a and b (NoNode: none)    *)
GapFormats(S, themes, a, b, closed) ==
    LET u == SetOf(Default(themes).unparsed)
        \* any language around the gap: of the neighbours, or of a context they are in
        Langs(k) == {LangOf(S, k)} \cup {LangOf(S, c) : c \in SetOf(Ancestors(S, k)) \ {0}}
    IN IF b = NoNode /\ ~ closed THEN {{}}
       ELSE IF u # {} THEN {u}
       ELSE {Base(ThemeFor(themes, g)) : g \in UNION {Langs(k) : k \in {a, b} \ {NoNode}}}
(* what position p may get, formatting from s up to e (NoEnd: no end)       *)
Allowed(S, themes, toks, e, p) ==
    IF ~ HasDefault(themes) THEN {{}}
    ELSE LET at == {k \in 1..Len(toks) : TPos(S, toks[k]) <= p /\ p < TEnd(S, toks[k])}
             lo == {k \in 1..Len(toks) : TEnd(S, toks[k]) <= p}
             hi == {k \in 1..Len(toks) : TPos(S, toks[k]) > p}
             a == IF lo = {} THEN NoNode ELSE toks[CHOOSE k \in lo : \A j \in lo : j <= k]
             b == IF hi = {} THEN NoNode ELSE toks[CHOOSE k \in hi : \A j \in hi : j >= k]
         IN IF at # {} THEN {TokenFormat(S, themes, toks[CHOOSE k \in at : TRUE])}
            ELSE IF toks = <<>> THEN {{}, SetOf(Default(themes).unparsed)} \cup {Base(themes[k]) : k \in 1..Len(themes)}
            ELSE GapFormats(S, themes, a, b, e # NoEnd)
(* what the formatter says about a theme                                    *)
AskOk(themes, q) ==
    LET X == {k \in 1..Len(themes) : themes[k].lang = q.lang} IN
    IF X = {} THEN q.format = <<>> /\ q.base = <<>>
    ELSE LET th == themes[CHOOSE k \in X : TRUE] IN
         /\ SetOf(q.format) = OnTop(Base(th), SetOf(th.tab[q.action]))
         /\ SetOf(q.base) = IF q.window THEN SetOf(th.base) ELSE {}
(* the themes that a format context is told about: first the default theme, *)
(* then at least those of the tokens in order                               *)
ThemeNum(themes, lang) ==
    LET X == {k \in 1..Len(themes) : themes[k].lang = lang}
    IN IF X # {} THEN CHOOSE k \in X : TRUE ELSE CHOOSE k \in 1..Len(themes) : themes[k].lang = 0
RECURSIVE Follows(_, _, _, _)
\* the numbers in w from i on lead along the numbers in s from j on
Follows(w, i, s, j) ==
    IF j > Len(s) THEN TRUE
    ELSE IF i > Len(w) THEN FALSE
    ELSE IF w[i] = s[j] THEN Follows(w, i, s, j + 1) ELSE Follows(w, i + 1, s, j)
WatchOk(S, themes, toks, w) ==
    /\ w[1] = ThemeNum(themes, 0)
    /\ \A k \in 1..(Len(w) - 1) : w[k] # w[k + 1]
    /\ \A k \in 1..Len(w) : w[k] \in 1..Len(themes)
    /\ Follows(w, 1, <<>> \o [k \in 1..Len(toks) |-> ThemeNum(themes, LangOf(S, toks[k]))], 1)
(* ranges [pos, end, format] ascend and lie in the range                    *)
RangesOk(rs, s, e) ==
    /\ \A k \in 1..Len(rs) : s <= rs[k][1] /\ rs[k][1] < rs[k][2] /\ (e = NoEnd \/ rs[k][2] <= e)
    /\ \A k \in 1..(Len(rs) - 1) : rs[k][2] <= rs[k+1][1]
FormatAt(rs, p) == LET X == {k \in 1..Len(rs) : rs[k][1] <= p /\ p < rs[k][2]}
                   IN IF X = {} THEN {} ELSE SetOf(rs[CHOOSE k \in X : TRUE][3])
(* pieces <<text, format>> as ranges                                        *)
RECURSIVE PieceRanges(_, _)
PieceRanges(ps, p) == IF ps = <<>> THEN <<>>
                      ELSE <<<<p, p + Len(ps[1][1]), ps[1][2]>>>> \o PieceRanges(Tail(ps), p + Len(ps[1][1]))
RECURSIVE PieceText(_)
PieceText(ps) == IF ps = <<>> THEN <<>> ELSE ps[1][1] \o PieceText(Tail(ps))
============================================================================
