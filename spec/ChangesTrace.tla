---------------------------- MODULE ChangesTrace ----------------------------
(* Trace: [old: text, ev]; line: [n: text after the change, s, r, a: what   *)
(* the Changes object says after adding it, root: the root lexicon asked    *)
(* for last (0: none), wantroot, has, pos, np: where it says that positions *)
(* pos of the old text are now, exc].                                       *)
EXTENDS Changes, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
NewPos(c, p) == IF p < c.s THEN p ELSE IF p < c.s + c.r THEN c.s + c.a ELSE p - c.r + c.a
Judge(old, q) ==
    LET c == [n |-> q.n, s |-> q.s, r |-> q.r, a |-> q.a] IN
    IF q.exc # "" THEN "Exception"
    ELSE IF q.text # q.n THEN "ChangesText"
    ELSE IF ~q.has THEN "HasChanges"
    ELSE IF ~Covers(old, c) THEN "Covers"
    ELSE IF q.root # q.wantroot THEN "ChangesRoot"
    ELSE IF \E k \in 1..Len(q.pos) : q.np[k] # NewPos(c, q.pos[k]) THEN "NewPosition"
    ELSE ""
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
           IN /\ bad' = Judge(Traces[t].old, q)
              /\ IF bad' = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad', q>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
