----------------------------- MODULE MCIndent -------------------------------
(* All documents of a few lines in the plain notation, all ranges: laws of  *)
(* the indenting operations; an exploration of two consecutive operations   *)
EXTENDS Indent, TLC
CONSTANTS MaxLines
Kinds == {<<>>, <<32>>, <<97>>, <<123>>, <<32, 125>>, <<97, 125, 123>>, <<125, 123>>, <<123, 123>>, <<33, 123>>, <<32, 33>>, <<112, 123>>}
Std == <<32, 32>>
VARIABLES ls, op, before, text
vars == <<ls, op, before, text>>
Txt(s) == Join(s)
Init == ls \in UNION {[1..n -> Kinds] : n \in 1..MaxLines} /\ op = <<>> /\ before = <<>> /\ text = Join(ls)
I(x) == Infos(x, "blank", <<>>)
Next == /\ op = <<>> /\ UNCHANGED ls
        /\ before' = text
        /\ \/ \E f \in 1..Len(ls), b \in BOOLEAN :
                /\ op' = <<"indent", f, b>>
                /\ text' = DoIndent(text, I(text), LineSpans(text)[f][1], -1, Std, b)
           \/ op' = <<"inc", 1, TRUE>> /\ text' = Increase(text, I(text), 0, -1, Std)
Sp(k) == LineSpans(before)[k]
OnlyIndents ==
    op # <<>> => /\ LineCount(text) = Len(ls)
               /\ \A k \in 1..Len(ls) :
                    LET a == LineText(before, Sp(k)) b == LineText(text, LineSpans(text)[k])
                    IN /\ SubSeq(a, Lead(a) + 1, Len(a)) = SubSeq(b, Lead(b) + 1, Len(b))
                       /\ (k < op[2] \/ 33 \in {a[j] : j \in 1..Len(a)}) => a = b
Again == (op # <<>> /\ op[1] = "indent") =>
            DoIndent(text, I(text), LineSpans(text)[op[2]][1], -1, Std, op[3]) = text
Restored == (op # <<>> /\ op[1] = "inc") => Decrease(text, I(text), 0, -1, Std) = before
\* auto-indenting a line of an indented text leaves it alone (unless the text has too many dedents)
AutoAgrees == (op # <<>> /\ op[1] = "indent" /\ op[2] = 1) =>
    \A k \in 1..Len(ls) : LET p == LineSpans(text)[k][1]
        IN (Unclear(text, I(text), p, Std, op[3]) \/ LineText(text, LineSpans(text)[k]) = <<>> \/ (I(text)[k].bl /\ ~op[3]))
           \/ text \in AutoIndents(text, I(text), p, Std, op[3])
=============================================================================
