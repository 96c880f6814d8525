----------------------------- MODULE ActionTrace ----------------------------
(* Trace: [ev]; line: [op, a, b: paths, n: name, r, s, exc]; objects are    *)
(* numbered on first sight, r are object numbers, s a string.               *)
EXTENDS Actions, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, ids
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ ids = <<>>
B2I(b) == IF b THEN 1 ELSE 0
Id(p) == IF p = <<>> THEN 0 ELSE ids[p]
Judge(q) ==
    IF q.op # "private" /\ q.exc # "" THEN "Exception"
    ELSE CASE q.op \in {"get", "make"} -> IF Agrees(ids, q.a, q.r[1]) THEN "" ELSE "Identity"
      [] q.op \in {"copy", "deepcopy"} -> IF q.r = <<ids[q.a]>> THEN "" ELSE "Copy"
      [] q.op = "parent" -> IF q.r = <<Id(Prefix(q.a, Len(q.a) - 1))>> THEN "" ELSE "Parent"
      [] q.op = "iter" -> IF q.r = [k \in 1..Len(q.a) |-> ids[Ancestry(q.a)[k]]] THEN "" ELSE "Iteration"
      [] q.op = "in" -> IF q.r = <<B2I(IsIn(q.a, q.b))>> THEN "" ELSE "Containment"
      [] q.op = "name_in" -> IF q.r = <<B2I(HasName(q.a, q.n))>> THEN "" ELSE "NameContainment"
      [] q.op = "and" -> IF q.r = <<Id(Meet(q.a, q.b))>> THEN "" ELSE "CommonAncestor"
      [] q.op = "eq" -> IF q.r = <<B2I(q.a = q.b), B2I(q.a # q.b)>> THEN "" ELSE "Equality"
      [] q.op = "repr" -> IF q.s = Dotted(q.a) THEN "" ELSE "Name"
      [] q.op = "private" -> IF q.exc = "AttributeError" THEN "" ELSE "Private"
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == Judge(q)
           IN /\ bad' = v
              /\ ids' = IF v = "" /\ q.op \in {"get", "make"} THEN Learn(ids, q.a, q.r[1]) ELSE ids
              /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, q>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
