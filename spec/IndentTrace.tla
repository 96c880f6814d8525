---------------------------- MODULE IndentTrace -----------------------------
(* Trace: [start: text, kind, ev]; lines [op, p, e, std, blanks, chars,     *)
(* toks (before), text (after), exc]                                        *)
EXTENDS Indent, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, text, prev
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ text = Traces[t].start /\ prev = text
Elems(s) == {s[k] : k \in 1..Len(s)}
Allowed(q) ==
    LET infos == Infos(text, Traces[t].kind, q.toks)
    IN CASE q.op = "indent" -> {DoIndent(text, infos, q.p, q.e, q.std, q.blanks)}
         [] q.op = "auto" -> AutoIndents(text, infos, q.p, q.std, q.blanks)
         [] q.op = "inc" -> {Increase(text, infos, q.p, q.e, q.std)}
         [] q.op = "dec" -> {Decrease(text, infos, q.p, q.e, q.std)}
         [] q.op = "strip" -> {Strip(text, infos, q.p, q.e, IF q.chars = <<>> THEN White ELSE Elems(q.chars))}
         [] q.op = "undo" -> {prev}
         [] q.op = "edit" -> {q.text}
Judge(q) ==
    IF q.exc # "" THEN <<"Exception", q.exc>>
    ELSE IF q.text \in Allowed(q) THEN <<"", "">>
    ELSE IF q.op = "auto" /\ Unclear(text, Infos(text, Traces[t].kind, q.toks), q.p, q.std, q.blanks)
         THEN IF OnlyLead(text, q.text, LineAt(LineSpans(text), q.p)) THEN <<"", "">> ELSE <<"auto", "not only the indent changed">>
    ELSE <<q.op, Allowed(q)>>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == Judge(q)
           IN /\ bad' = v[1] /\ text' = q.text /\ prev' = text
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], text, v[2], q.text>>)
        /\ l' = l + 1 /\ t' = t
=============================================================================
