---------------------------- MODULE UniqueTrace -----------------------------
(* Trace: [ev]: what threads asked for, made and got, in order of time      *)
EXTENDS Unique, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ s = Empty
Judge(q) == IF q.k = "error" THEN <<"Exception", q.exc>>
            ELSE IF q.k = "done" THEN (IF s.busy # {} \/ s.in # {} THEN <<"Unfinished", s>> ELSE <<"", "">>)
            ELSE IF Allowed(s, q) THEN <<"", "">> ELSE <<q.k, s>>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == Judge(q)
           IN /\ bad' = v[1] /\ s' = After(s, q)
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], q.key, v[2]>>)
        /\ l' = l + 1 /\ t' = t
=============================================================================
