----------------------------- MODULE QueryTrace -----------------------------
(* Trace: [fl, root: lexicon number of the root, ev]; line: [start, steps,  *)
(* r, again: results of iterating; count, any, pick, last, range, pickd,    *)
(* lastd: with the default dflt,                                            *)
(* del: did it delete, left: the tree after deletion, dcount, exc].         *)
EXTENDS Queries, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, T
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ T = [fl |-> Traces[t].fl, par |-> ParOf(Traces[t].fl), root |-> Traces[t].root]
Judge(e) ==
    IF e.exc # "" THEN <<"Exception", e.exc>>
    ELSE LET w == EvalQ(T, e.start, e.steps, 1) IN
    IF e.r # w THEN <<"Selected", w>>
    ELSE IF e.again # w THEN <<"SelectedAgain", w>>
    ELSE IF e.count # Len(w) THEN <<"Count", Len(w)>>
    ELSE IF e.any # (w # <<>>) THEN <<"Bool", w>>
    ELSE IF e.pick # First(w) THEN <<"Pick", w>>
    ELSE IF e.last # Final(w) THEN <<"PickLast", w>>
    ELSE IF e.pickd # (IF w = <<>> THEN e.dflt ELSE First(w)) THEN <<"PickDefault", w>>
    ELSE IF e.lastd # (IF w = <<>> THEN e.dflt ELSE Final(w)) THEN <<"PickLastDefault", w>>
    ELSE IF e.range # RangeOf(T, w) THEN <<"Range", RangeOf(T, w)>>
    ELSE IF e.del /\ e.left # Without(T, w) THEN <<"Deleted", Without(T, w)>>
    ELSE IF e.del /\ e.dcount # GoneCount(T, w) THEN <<"DeletedCount", GoneCount(T, w)>>
    ELSE IF e.del /\ e.par # ParOf(e.left) THEN <<"Parents", ParOf(e.left)>>
    ELSE IF e.intact # T.fl THEN <<"SideEffect", e.intact>>
    ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               v == Judge(e)
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], e.steps, e.r, v[2]>>)
        /\ l' = l + 1 /\ UNCHANGED <<t, T>>
============================================================================
