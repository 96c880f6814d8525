----------------------------- MODULE FormatTrace ----------------------------
(* Trace: [fl, text, langs, root, ev]; line: [themes, c: context formatted, *)
(* s, e, ranges, pieces, asks, watch, order, got, exc].                     *)
EXTENDS Formats, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, S
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ S = [fl |-> Traces[t].fl, par |-> ParOf(Traces[t].fl), langs |-> Traces[t].langs, root |-> Traces[t].root]
Judge(tr, q) ==
    IF q.exc # "" THEN <<"Exception", q.exc>>
    ELSE LET toks == RangeTokens(S, q.c, q.s, q.e)
             end == IF q.e = NoEnd THEN Len(tr.text) ELSE q.e
             ps == PieceRanges(q.pieces, q.s)
             Wrong(rs) == {p \in q.s..(end - 1) : FormatAt(rs, p) \notin Allowed(S, q.themes, toks, q.e, p)}
         IN IF ~ RangesOk(q.ranges, q.s, q.e) THEN <<"Ranges", q.ranges>>
            ELSE IF Wrong(q.ranges) # {} THEN <<"RangeFormat", Wrong(q.ranges)>>
            ELSE IF ~ q.got THEN <<"GetTheme", q.themes>>
            ELSE IF \E k \in 1..Len(q.asks) : ~ AskOk(q.themes, q.asks[k]) THEN <<"Ask", q.asks>>
            ELSE IF ~ q.order THEN <<"WatchOrder", q.watch>>
            ELSE IF q.watch # <<>> /\ HasDefault(q.themes) /\ ~ WatchOk(S, q.themes, toks, q.watch) THEN <<"Watch", q.watch>>
            ELSE IF PieceText(q.pieces) # Slice(tr.text, q.s, end) THEN <<"PieceText", q.pieces>>
            ELSE IF Wrong(ps) # {} THEN <<"PieceFormat", Wrong(ps)>>
            ELSE IF q.dpieces # <<>> /\ PieceText(q.dpieces) # Slice(tr.text, q.s, end) THEN <<"DocumentText", q.dpieces>>
            ELSE IF q.dpieces # <<>> /\ Wrong(PieceRanges(q.dpieces, q.s)) # {} THEN <<"DocumentFormat", q.dpieces>>
            ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == Judge(Traces[t], q)
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], q.ranges>>)
        /\ l' = l + 1 /\ UNCHANGED <<t, S>>
============================================================================
