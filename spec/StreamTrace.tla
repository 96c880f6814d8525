---------------------------- MODULE StreamTrace ----------------------------
(* Judges event streams of any (uninterpreted) language.                    *)
(* Line: [text, evs, again: the events when lexed again later, nopen:       *)
(* number of open lexicons at the end, root included, exc].                 *)
EXTENDS Tree, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""

RootPopped(evs) == \* depth of the stack after every event; -1: popped too much
    LET F[i \in 0..Len(evs)] ==
            IF i = 0 THEN 1
            ELSE LET p == F[i-1]
                     d == p - evs[i].pop
                 IN IF p = -1 \/ d < 1 \/ evs[i].pop < 0 THEN -1 ELSE d + Len(evs[i].push)
    IN F[Len(evs)] = -1
AllLexemes(evs) == FlattenSeq([i \in 1..Len(evs) |-> evs[i].lexemes])

Judge(ev) ==
    IF ev.exc # "" THEN <<"Exception", ev.exc, "">>
    ELSE LET ls == AllLexemes(ev.evs) IN
    IF \E i \in 1..Len(ev.evs) : ev.evs[i].lexemes = <<>> THEN <<"EmptyEvent", ev.evs, "">>
    ELSE IF \E i \in 1..Len(ls) : ls[i][2] = <<>> THEN <<"EmptyLexeme", ls, "">>
    ELSE IF \E i \in 1..Len(ls) : ls[i][1] < 0 \/ Slice(ev.text, ls[i][1], ls[i][1] + Len(ls[i][2])) # ls[i][2]
         THEN <<"TokenText", ls, ev.text>>
    ELSE IF \E i \in 1..(Len(ls) - 1) : ls[i][1] + Len(ls[i][2]) > ls[i+1][1] THEN <<"TokensAscend", ls, "">>
    ELSE IF RootPopped(ev.evs) THEN <<"RootPopped", ev.evs, "">>
    ELSE IF ev.nopen < 1 THEN <<"OpenLexicons", ev.nopen, "">>
    ELSE IF ev.again # ev.evs THEN <<"Repeatable", ev.evs, ev.again>>
    ELSE <<"", "", "">>

Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET v == Judge(Traces[t].ev[l + 1])
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], v[3]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
