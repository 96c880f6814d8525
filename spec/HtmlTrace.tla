----------------------------- MODULE HtmlTrace ------------------------------
(* Trace: one HTML text: [doc (index of the document), themes, s, e, full,  *)
(* key (start of the tag after the name), style (pairs <<tag, text>>),      *)
(* pre (expected attribute of pre), ev: [c: piece, exc]]                    *)
(* Docs: [fl, text, langs, root].                                           *)
EXTENDS Formats, Html, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Docs == <<>> \o [k \in 1..Len(Data.docs) |-> [fl |-> Data.docs[k].fl, par |-> ParOf(Data.docs[k].fl), langs |-> Data.docs[k].langs,
                                              root |-> Data.docs[k].root, text |-> Data.docs[k].text]]
StopOf(tr) == IF tr.e = NoEnd THEN Len(Docs[tr.doc].text) ELSE tr.e
AllowedAll == <<>> \o [k \in 1..Len(Traces) |->
    LET tr == Traces[k]
        S == Docs[tr.doc]
        toks == RangeTokens(S, 0, tr.s, tr.e)
    IN <<>> \o [p \in 1..(StopOf(tr) - tr.s) |-> Allowed(S, tr.themes, toks, tr.e, tr.s + p - 1)]]
VARIABLES t, l, bad, r, n
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ r = R0 /\ n = 0
SpanName == <<115, 112, 97, 110>>
\* the style text of a format: the texts of its tags in order
RECURSIVE Styled(_, _, _)
Styled(st, F, k) == IF k > Len(st) THEN <<>>
                    ELSE LET rest == Styled(st, F, k + 1)
                         IN IF st[k][1] \in F THEN st[k][2] \o (IF rest = <<>> THEN <<>> ELSE <<32>> \o rest) ELSE rest
InSpan(x) == x.stack # <<>> /\ x.stack[Len(x.stack)][1] = SpanName
InPre(x) == \E k \in 1..Len(x.stack) : x.stack[k][1] = Pre
AttrOk(tr, F) == IF F = {} THEN ~InSpan(r)
                 ELSE InSpan(r) /\ r.stack[Len(r.stack)][2] = tr.key /\ r.stack[Len(r.stack)][3] = Styled(tr.style, F, 1)
Judge(tr, q, x, s) ==
    LET doc == Docs[tr.doc]
        stop == StopOf(tr)
        size == stop - tr.s
        last == l + 1 = Len(tr.ev)
        lines == ~tr.full \/ InPre(r)
    IN IF q.exc # "" THEN <<"Exception", q.exc>>
       ELSE IF ~x.ok THEN <<"WellFormed", q.c>>
       ELSE IF ~lines THEN (IF \A k \in 1..Len(s) : s[k] \in WhiteSp THEN
                               (IF last /\ (x.stack # <<>> \/ x.mode # "text" \/ n # size) THEN <<"Incomplete", n>> ELSE <<"", "">>)
                            ELSE <<"Outside", s>>)
       ELSE IF n + Len(s) > size \/ s # SubSeq(doc.text, tr.s + n + 1, tr.s + n + Len(s)) THEN <<"Text", s>>
       ELSE IF \E k \in (n + 1)..(n + Len(s)) : ~ \E F \in AllowedAll[t][k] : AttrOk(tr, F) THEN <<"Format", <<s, r.stack>>>>
       ELSE IF InPre(x) /\ x.stack[Len(x.stack)][1] = Pre /\ x.stack[Len(x.stack)][3] # tr.pre THEN <<"Base", x.stack>>
       ELSE IF last /\ (x.stack # <<>> \/ x.mode # "text" \/ n + Len(s) # size) THEN <<"Incomplete", n>>
       ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               x == ReadPiece(r, q.c)
               s == Shown(r, q.c)
               v == Judge(Traces[t], q, x, s)
           IN /\ bad' = v[1] /\ r' = x /\ n' = n + Len(IF Traces[t].full /\ ~InPre(r) THEN <<>> ELSE s)
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2]>>)
        /\ l' = l + 1 /\ t' = t
=============================================================================
