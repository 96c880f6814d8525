------------------------------ MODULE MCEvents ------------------------------
(* Handlers that connect, disconnect and emit while being called.           *)
EXTENDS Events
CONSTANTS Handlers, MaxOps, MaxDepth
VARIABLES conns, ems, ops, calls, called
vars == <<conns, ems, ops, calls, called>>
Init == conns = <<>> /\ ems = <<>> /\ ops = 0 /\ calls = <<>> /\ called = {}
Top == ems[Len(ems)]
Op == /\ ops < MaxOps /\ ops' = ops + 1
      /\ \/ \E h \in Handlers, o \in BOOLEAN, p \in 0..1 :
               conns' = Connect(conns, [id |-> ops + 1, ev |-> 1, f |-> h, once |-> o, self |-> FALSE, prio |-> p])
               /\ UNCHANGED <<ems, calls, called>>
         \/ \E h \in Handlers : conns' = Disconnect(conns, 1, h) /\ UNCHANGED <<ems, calls, called>>
         \/ Len(ems) < MaxDepth /\ ems' = Append(ems, Emission(conns, 1, ops + 1)) /\ calls' = Append(calls, <<>>) /\ UNCHANGED <<conns, called>>
Step == ems # <<>> /\ UNCHANGED ops /\
    LET k == NextCall(Top, conns, {}) n == Len(ems) IN
    IF k = 0 THEN ems' = SubSeq(ems, 1, n - 1) /\ calls' = SubSeq(calls, 1, n - 1) /\ UNCHANGED <<conns, called>>
    ELSE LET c == Top.snap[k] IN
         /\ ems' = [ems EXCEPT ![n] = AfterCall(Top, k)]
         /\ conns' = ConnsAfterCall(conns, c)
         /\ calls' = [calls EXCEPT ![n] = Append(@, c)]
         /\ called' = IF c.once THEN called \cup {<<c.id, Top.arg>>} ELSE called
Next == Op \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
(* in one emission: ordered, nobody twice                                   *)
OrderOk == \A e \in 1..Len(calls) : \A i, j \in 1..Len(calls[e]) :
    i < j => /\ calls[e][i].prio <= calls[e][j].prio
             /\ (calls[e][i].prio = calls[e][j].prio => calls[e][i].id < calls[e][j].id)
             /\ calls[e][i].f # calls[e][j].f
OnceOk == \A x, y \in called : x[1] = y[1] => x = y
UniqueOk == \A i, j \in 1..Len(conns) : i # j => conns[i].f # conns[j].f
Ends == <>[](ems = <<>>)
============================================================================
