------------------------------ MODULE NavTrace ------------------------------
(* Trace: [fl: the tree, text, ev]; line: [op, n, a, b, r, exc].                  *)
EXTENDS Nav, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, T
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ T = [fl |-> Traces[t].fl, text |-> Traces[t].text, par |-> ParOf(Traces[t].fl)]
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == IF q.exc # "" THEN "Exception" ELSE IF ~ Accepts(T, q) THEN q.op ELSE ""
           IN /\ bad' = v
              /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, q,
                     IF q.exc # "" THEN <<>> ELSE IF q.op = "doc_token" THEN SetToSeq(DocToken(T, q.a)) ELSE Answer(T, q)>>)
        /\ l' = l + 1 /\ UNCHANGED <<t, T>>
============================================================================
