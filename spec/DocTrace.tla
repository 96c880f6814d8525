----------------------------- MODULE DocTrace ------------------------------
(* Judges recorded histories of the real document against Doc.              *)
(* Trace: [init, ev: sequence of events], every event carries the call and  *)
(* what was observed after it. Data.clauses names the clauses to evaluate.  *)
EXTENDS DocSearch, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
On(c) == \E i \in 1..Len(Data.clauses) : Data.clauses[i] = c
VARIABLES t, l, st, bad

Init == /\ t \in 1..Len(Traces)
        /\ l = 0 /\ bad = ""
        /\ st = InitState(Traces[t].init)

NoteSet(ns) == {ns[i] : i \in 1..Len(ns)}
Relevant(ns) == {x \in ns : On("Note_" \o x[1])}

Verdict(r, ev) ==
    IF ev.exc # r.exc THEN "Exception"
    ELSE IF On("Text") /\ ev.text # r.st.text THEN "Text"
    ELSE IF On("Read") /\ ev.ret # r.ret THEN "Read"
    ELSE IF On("Revision") /\ ev.rev # r.st.rev THEN "Revision"
    ELSE IF On("Modified") /\ ev.mod # Modified(r.st) THEN "Modified"
    ELSE IF On("CanUndo") /\ (ev.cu # (r.st.undo # <<>>) \/ ev.cr # (r.st.redo # <<>>)) THEN "CanUndoRedo"
    ELSE IF On("Cursors") /\ ev.curs # [i \in 1..Len(r.st.curs) |-> <<r.st.curs[i].pos, r.st.curs[i].end>>] THEN "Cursors"
    ELSE IF On("Mirror") /\ ev.mirror # r.st.text THEN "Mirror"
    ELSE IF Relevant(NoteSet(ev.notes)) # Relevant(r.notes) THEN "Notifications"
    ELSE IF \E i, j \in 1..Len(ev.notes) : i # j /\ ev.notes[i] = ev.notes[j] /\ On("Note_" \o ev.notes[i][1]) THEN "DuplicateNotification"
    ELSE ""

Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l + 1]
               r == StepX(st, ev)
               v == Verdict(r, ev)
           IN /\ st' = r.st /\ bad' = v
              /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, ev.op, r.st.text, ev.text>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
