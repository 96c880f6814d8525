------------------------------ MODULE LexTrace -----------------------------
(* Judges recorded lexer runs. Every line: [text, above, pos, evs, open,  *)
(* tree, exc]; lexing starts at pos with the lexicons above on the root.    *)
EXTENDS Tree, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Langs == Data.langs
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""

FirstDiff(a, b) == LET S == {i \in 1..Max2(Len(a), Len(b)) : i > Len(a) \/ i > Len(b) \/ a[i] # b[i]}
                   IN CHOOSE i \in S : \A j \in S : i <= j
At(a, i) == IF i <= Len(a) THEN a[i] ELSE "none"

Judge(tr, ev) ==
    IF ev.exc # "" THEN <<"Exception", ev.exc, "">>
    ELSE LET r == Run(Langs[tr.lang], ev.text, LexInit(<<tr.root>> \o ev.above, ev.pos))
             whole == ev.above = <<>> /\ ev.pos = 0 IN
    IF ev.evs # r.out
    THEN LET i == FirstDiff(ev.evs, r.out) IN <<"Events", At(ev.evs, i), At(r.out, i)>>
    ELSE IF ev.open # r.stack THEN <<"OpenLexicons", ev.open, r.stack>>
    ELSE IF whole /\ ev.tree # FlatTree(r.out) THEN <<"Tree", ev.tree, FlatTree(r.out)>>
    ELSE <<"", "", "">>

Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET v == Judge(Traces[t], Traces[t].ev[l + 1])
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], v[3]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
