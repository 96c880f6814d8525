------------------------------- MODULE Indent -------------------------------
(* Indenting. A text is a sequence of character codes; lines are separated  *)
(* by newlines. For every line there is a sequence of events [k, s]:        *)
(*   "in" indent, "de" dedent, "nd" no dedent of this line anymore, "ni" do *)
(*   not touch the indent, "ns" do not strip, "bl" blank line,              *)
(*   "pr" preferred indent s, "cu" current indent s, "al" align with s      *)
EXTENDS Integers, Sequences, FiniteSets
NLs(x) == {k \in 1..Len(x) : x[k] = 10}
LineCount(x) == Cardinality(NLs(x)) + 1
\* sequence of <<start, end>>: offsets (from 0) of the lines
LineSpans(x) ==
    LET n == SelectSeq([k \in 1..Len(x) |-> IF x[k] = 10 THEN k ELSE 0], LAMBDA k : k > 0)
    IN <<>> \o [i \in 1..(Len(n) + 1) |-> <<IF i = 1 THEN 0 ELSE n[i - 1], IF i > Len(n) THEN Len(x) ELSE n[i] - 1>>]
LineText(x, sp) == SubSeq(x, sp[1] + 1, sp[2])
White == {9, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Lead(s) == LET S == {k \in 1..Len(s) : s[k] \notin White} IN IF S = {} THEN Len(s) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
TrimLen(s, C) == LET S == {k \in 1..Len(s) : s[k] \notin C} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k >= j
Default == <<-1>>            \* an indent of the default width
Nothing == <<-2>>
Start == [ind |-> <<>>, ds |-> 0, de |-> 0, cur |-> Nothing, pref |-> Nothing, ni |-> FALSE, ns |-> FALSE, bl |-> FALSE, fd |-> TRUE]
Front(s) == SubSeq(s, 1, Len(s) - 1)
StepEv(i, e) ==
    CASE e.k = "in" -> [i EXCEPT !.ind = Append(@, Default), !.fd = FALSE]
      [] e.k = "de" -> IF i.fd THEN [i EXCEPT !.ds = @ + 1]
                       ELSE IF i.ind # <<>> THEN [i EXCEPT !.ind = Front(@)]
                       ELSE [i EXCEPT !.de = @ + 1]
      [] e.k = "nd" -> [i EXCEPT !.fd = FALSE]
      [] e.k = "cu" -> [i EXCEPT !.cur = e.s]
      [] e.k = "pr" -> [i EXCEPT !.pref = e.s]
      [] e.k = "al" -> IF i.ind # <<>> /\ i.ind[Len(i.ind)] = Default THEN [i EXCEPT !.ind = Append(Front(@), e.s)] ELSE i
      [] e.k = "ni" -> [i EXCEPT !.ni = TRUE]
      [] e.k = "ns" -> [i EXCEPT !.ns = TRUE]
      [] e.k = "bl" -> [i EXCEPT !.bl = TRUE]
RECURSIVE FoldEv(_, _, _)
FoldEv(i, evs, k) == IF k > Len(evs) THEN i ELSE FoldEv(StepEv(i, evs[k]), evs, k + 1)
\* what is known of a line with text s
InfoOf(evs, s) == LET i == FoldEv(Start, evs, 1)
                  IN [i EXCEPT !.cur = IF @ # Nothing THEN @ ELSE IF i.ni THEN <<>> ELSE SubSeq(s, 1, Lead(s))]
Width(x, std) == IF x = Default THEN std ELSE x
\* the stack of levels: [s, known (taken from a line), clip (more dedents than indents so far)]
RECURSIVE Open(_, _, _, _)
Open(st, ind, std, k) ==
    IF k > Len(ind) THEN st
    ELSE Open(Append(st, [s |-> st[Len(st)].s \o Width(ind[k], std), known |-> st[Len(st)].known]), ind, std, k + 1)
Close(st, n) == SubSeq(st, 1, IF Len(st) - n < 1 THEN 1 ELSE Len(st) - n)
Clips(st, n) == Len(st) - n < 1
\* scan the lines: infos of all lines, the lines first..last get a new indent.
\* result: [new: sequence of indents (Nothing: unchanged), known, clip of the last line]
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(infos, first, last, std, blanks, k, st, acc) ==
    IF k > last THEN acc
    ELSE LET i == infos[k]
             opened == IF k = 1 THEN st ELSE Open(st, infos[k - 1].ind, std, 1)
             level == Close(opened, i.ds)
             clip == acc.clipend \/ Clips(opened, i.ds)
             uses == ~i.ni /\ (blanks \/ ~i.bl)
             top == level[Len(level)]
             level2 == IF uses /\ k < first /\ i.pref = Nothing
                       THEN Append(Front(level), [s |-> i.cur, known |-> TRUE]) ELSE level
             new == IF uses /\ k >= first THEN (IF i.pref # Nothing THEN i.pref ELSE top.s) ELSE Nothing
             after == Close(level2, i.de)
         IN Scan(infos, first, last, std, blanks, k + 1, after,
                 [new |-> Append(acc.new, new), known |-> top.known, clip |-> clip,
                  clipend |-> clip \/ Clips(level2, i.de), target |-> top.s])
Zero == [s |-> <<>>, known |-> FALSE]
ScanAll(infos, first, last, std, blanks) ==
    Scan(infos, first, last, std, blanks, 1, <<Zero>>, [new |-> <<>>, known |-> FALSE, clip |-> FALSE, clipend |-> FALSE, target |-> <<>>])
\* replace the first Len(cur) characters of the lines that get a new indent
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<10>> \o Join(Tail(ls))
NewLines(x, infos, new) ==
    LET sp == LineSpans(x)
    IN <<>> \o [k \in 1..Len(sp) |-> LET s == LineText(x, sp[k])
                                     IN IF k > Len(new) \/ (k <= Len(new) /\ new[k] = Nothing) THEN s
                                        ELSE new[k] \o SubSeq(s, Len(infos[k].cur) + 1, Len(s))]
\* the lines a cursor from p to e (-1: the end) selects for indent: those starting at or after p, up to the line with e
IndentFirst(sp, p) == LET S == {k \in 1..Len(sp) : sp[k][1] >= p} IN IF S = {} THEN Len(sp) + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
IndentLast(sp, e) == IF e < 0 THEN Len(sp)
                     ELSE LET S == {k \in 1..Len(sp) : sp[k][2] >= e} IN IF S = {} THEN Len(sp) ELSE CHOOSE k \in S : \A j \in S : k <= j
LineAt(sp, p) == LET S == {k \in 1..Len(sp) : sp[k][1] <= p} IN CHOOSE k \in S : \A j \in S : k >= j
\* the lines a cursor touches (increase, decrease, strip)
Touched(sp, p, e) == {k \in 1..Len(sp) : k = LineAt(sp, p) \/ (k > LineAt(sp, p) /\ (e < 0 \/ sp[k][1] < e))}
DoIndent(x, infos, p, e, std, blanks) ==
    LET sp == LineSpans(x) IN Join(NewLines(x, infos, ScanAll(infos, IndentFirst(sp, p), IndentLast(sp, e), std, blanks).new))
\* auto-indent one line: as if only that line is indented. Without a line to take the indent of, or with
\* more dedents than indents before it, the line may also be left alone. The set of allowed results:
AutoIndents(x, infos, p, std, blanks) ==
    LET sp == LineSpans(x)
        n == LineAt(sp, p)
        i == infos[n]
        prev == ScanAll(infos, n, n - 1, std, blanks)
        r == ScanAll(infos, n, n, std, blanks)
        want == IF i.pref # Nothing THEN i.pref ELSE r.target
        set(s) == Join(NewLines(x, infos, [k \in 1..n |-> IF k = n THEN s ELSE Nothing]))
    IN IF i.ni THEN {x}
       ELSE IF i.pref # Nothing THEN {set(want)}
       ELSE IF r.clip \/ prev.clipend \/ ~r.known THEN {x, set(want)} ELSE {set(want)}
Unclear(x, infos, p, std, blanks) ==
    LET n == LineAt(LineSpans(x), p)
    IN ~infos[n].ni /\ infos[n].pref = Nothing
       /\ (ScanAll(infos, n, n, std, blanks).clip \/ ScanAll(infos, n, n - 1, std, blanks).clipend)
StartsWith(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
Increase(x, infos, p, e, std) ==
    LET sp == LineSpans(x) T == Touched(sp, p, e)
    IN Join(<<>> \o [k \in 1..Len(sp) |-> IF k \in T /\ ~infos[k].ni THEN std \o LineText(x, sp[k]) ELSE LineText(x, sp[k])])
Decrease(x, infos, p, e, std) ==
    LET sp == LineSpans(x) T == Touched(sp, p, e)
    IN Join(<<>> \o [k \in 1..Len(sp) |->
            LET s == LineText(x, sp[k]) c == infos[k].cur
            IN IF k \in T /\ ~infos[k].ni THEN SubSeq(s, (IF StartsWith(c, std) THEN Len(std) ELSE Len(c)) + 1, Len(s)) ELSE s])
Strip(x, infos, p, e, C) ==
    LET sp == LineSpans(x) T == Touched(sp, p, e)
    IN Join(<<>> \o [k \in 1..Len(sp) |-> LET s == LineText(x, sp[k]) IN IF k \in T /\ ~infos[k].ns THEN SubSeq(s, 1, TrimLen(s, C)) ELSE s])
\* only the whitespace at the start of line n differs
OnlyLead(x, y, n) ==
    /\ LineCount(x) = LineCount(y)
    /\ \A k \in 1..LineCount(x) :
        LET a == LineText(x, LineSpans(x)[k]) b == LineText(y, LineSpans(y)[k])
        IN IF k = n THEN SubSeq(a, Lead(a) + 1, Len(a)) = SubSeq(b, Lead(b) + 1, Len(b)) ELSE a = b
\* ---- where the events come from
\* a plain notation, used with the abstract indenter: every character of the line is an event
Ev(k) == [k |-> k, s |-> <<>>]
Spaces(n) == <<>> \o [k \in 1..n |-> 32]
CharEv(s, k) == CASE s[k] = 123 -> <<Ev("in")>>                       \* {
                  [] s[k] = 125 -> <<Ev("de")>>                       \* }
                  [] s[k] = 33 -> <<Ev("ni")>>                        \* !
                  [] s[k] = 36 -> <<Ev("ns")>>                        \* $
                  [] s[k] = 97 -> <<Ev("nd")>>                        \* a
                  [] s[k] = 112 -> <<[k |-> "pr", s |-> <<32, 32, 32>>]>>   \* p
                  [] s[k] = 113 -> <<[k |-> "pr", s |-> <<>>]>>             \* q
                  [] s[k] = 61 -> <<[k |-> "al", s |-> Spaces(k - Lead(s))]>>   \* =
                  [] s[k] = 94 -> <<[k |-> "cu", s |-> SubSeq(s, 1, Lead(s))]>>    \* ^
                  [] OTHER -> <<>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
CharEvents(s, marksblank) == (IF marksblank /\ Lead(s) = Len(s) THEN <<Ev("bl")>> ELSE <<>>) \o Cat([k \in 1..Len(s) |-> CharEv(s, k)])
\* tokens [p, e, kind, lang] of bundled languages
TokEv(q) == CASE q.lang = "css" -> (IF q.kind = "open" THEN <<Ev("in")>> ELSE IF q.kind = "close" THEN <<Ev("de")>> ELSE <<>>)
              [] q.lang = "ly" -> (IF q.kind = "open" THEN <<Ev("in")>> ELSE IF q.kind = "close" THEN <<Ev("de")>> ELSE <<Ev("nd")>>)
              [] OTHER -> <<>>
TokEvents(toks, sp) == Cat([k \in 1..Len(toks) |-> IF toks[k].p < sp[2] /\ toks[k].e > sp[1] THEN TokEv(toks[k]) ELSE <<>>])
Infos(x, kind, toks) ==
    LET sp == LineSpans(x)
    IN <<>> \o [k \in 1..Len(sp) |-> LET s == LineText(x, sp[k])
                                     IN InfoOf(IF kind = "tok" THEN TokEvents(toks, sp[k]) ELSE CharEvents(s, kind = "blank"), s)]
=============================================================================
