----------------------------- MODULE DocSearch ------------------------------
(* Search and replace in (a region of) the document: a sequence of changes  *)
(* found in the text of the region alone, made as one edit.                 *)
EXTENDS Doc, Regex

IsWord(ch) == ch \in (48..57) \cup (65..90) \cup (97..122) \cup {95, 233}
Boundary(r, p) == (p > 0 /\ IsWord(r[p])) # (p < Len(r) /\ IsWord(r[p + 1]))

(* replace: occurrences from left to right; the empty string occurs at      *)
(* every position                                                           *)
Occurs(r, old) == IF old = <<>> THEN [k \in 1..(Len(r) + 1) |-> k - 1] ELSE Occurrences(r, old)
ReplaceChanges(r, old, new) ==
    LET o == Occurs(r, old) IN [k \in 1..Len(o) |-> [s |-> o[k], e |-> o[k] + Len(old), t |-> new]]

(* replacement template: literal text, group n (0: the whole match)         *)
Expand(tpl, r, m) == FlattenSeq(<<>> \o [k \in 1..Len(tpl) |->
    LET x == tpl[k] IN
    IF x.t = "lit" THEN x.s
    ELSE IF x.n = 0 THEN Slice(r, m.s, m.e)
    ELSE IF m.c[x.n][1] < 0 THEN <<>> ELSE Slice(r, m.c[x.n][1], m.c[x.n][2])])
SubChanges(r, p, ng, ic, tpl) ==
    LET ms == Matches(p, ng, r, 0, ic, FALSE)
    IN [k \in 1..Len(ms) |-> [s |-> ms[k].s, e |-> ms[k].e, t |-> Expand(tpl, r, ms[k])]]

(* translate: the longest key at the leftmost position                      *)
RECURSIVE TranslateChanges(_, _, _, _)
TranslateChanges(r, map, whole, pos) ==
    IF pos > Len(r) THEN <<>>
    ELSE LET X == {k \in 1..Len(map) : /\ MatchAt(r, map[k][1], pos)
                                       /\ whole => Boundary(r, pos) /\ Boundary(r, pos + Len(map[k][1]))}
         IN IF X = {} THEN TranslateChanges(r, map, whole, pos + 1)
            ELSE LET k == CHOOSE k \in X : \A j \in X : Len(map[k][1]) >= Len(map[j][1])
                     e == pos + Len(map[k][1])
                 IN <<[s |-> pos, e |-> e, t |-> map[k][2]]>> \o TranslateChanges(r, map, whole, e)

(* trim: spaces and tabs before the end of a line                           *)
IsBlank(ch) == ch \in {9, 32}
RECURSIVE BlankEnd(_, _)
BlankEnd(r, p) == IF p < Len(r) /\ IsBlank(r[p + 1]) THEN BlankEnd(r, p + 1) ELSE p
RECURSIVE TrimChanges(_, _)
TrimChanges(r, pos) ==
    IF pos >= Len(r) THEN <<>>
    ELSE LET e == BlankEnd(r, pos) IN
         IF e = pos THEN TrimChanges(r, pos + 1)
         ELSE (IF e = Len(r) \/ r[e + 1] = NL THEN <<[s |-> pos, e |-> e, t |-> <<>>]>> ELSE <<>>) \o TrimChanges(r, e)

SearchOps == {"replace", "re_sub", "translate", "trim"}
FirstN(cs, n) == IF n > 0 /\ n < Len(cs) THEN SubSeq(cs, 1, n) ELSE cs
Found(text, ev) ==
    LET k == SliceKey(ev.s, ev.e, Len(text))
        r == Slice(text, k[1], k[2])
        cs == CASE ev.op = "replace" -> IF ev.old = ev.new THEN <<>> ELSE ReplaceChanges(r, ev.old, ev.new)
                [] ev.op = "re_sub" -> SubChanges(r, ev.p, ev.ng, ev.ic, ev.tpl)
                [] ev.op = "translate" -> TranslateChanges(r, ev.map, ev.whole, 0)
                [] ev.op = "trim" -> TrimChanges(r, 0)
        f == FirstN(cs, ev.count)
    IN <<>> \o [i \in 1..Len(f) |-> [f[i] EXCEPT !.s = @ + k[1], !.e = @ + k[1]]]
StepX(st, ev) ==
    IF ev.op \notin SearchOps THEN Step(st, ev)
    ELSE LET cs == SelectSeq(Found(st.text, ev), LAMBDA c : ~ NoOp(st.text, c))
             st1 == [st EXCEPT !.depth = @ + 1, !.pend = @ \o cs]
         IN Leave(st1)
============================================================================
