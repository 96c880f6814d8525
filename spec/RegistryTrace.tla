--------------------------- MODULE RegistryTrace ----------------------------
(* Trace: [ev]; state: the registries. Lines: [op, reg, e, h, n, f, m, c, x,*)
(* r, keys, exc]: keys are the keys of the registry after the operation     *)
EXTENDS Registry, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, regs
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ regs = <<[entries |-> Elems(Traces[t].start), fb |-> 0]>>
After(q) ==
    CASE q.op = "add" -> [regs EXCEPT ![q.reg].entries = Added(@, q.e, q.h).r]
      [] q.op = "del" -> [regs EXCEPT ![q.reg].entries = Without(@, q.h)]
      [] q.op = "new" -> Append(regs, [entries |-> {}, fb |-> q.x])
      [] q.op = "copy" -> Append(regs, regs[q.reg])
      [] q.op = "fallback" -> [regs EXCEPT ![q.reg].fb = q.x]
      [] OTHER -> regs
\* the observed result: a sequence of keys or entries
Fine(q) ==
    LET r == regs[q.reg].entries IN
    CASE q.op = "find" -> LET S == FindIn(regs, q.reg, q.n, q.f, q.m, q.c) IN
                          IF S = {} THEN q.r = <<>> ELSE Len(q.r) = 1 /\ q.r[1] \in S
      [] q.op = "qualname" -> LET S == Named(r, q.n) IN IF S = {} THEN q.r = <<>> ELSE Len(q.r) = 1 /\ q.r[1] \in S
      [] q.op = "suggest" ->
            LET S == Suggested(r, q.f, q.m, q.c)
                w(k) == (CHOOSE x \in S : x[1] = k)[2]
            IN /\ Len(q.r) = Cardinality(S) /\ Elems(q.r) = {x[1] : x \in S}
               /\ \A k \in 1..(Len(q.r) - 1) : w(q.r[k]) >= w(q.r[k + 1])
      [] q.op = "sections" -> Elems(q.r) = {[q |-> e.q, section |-> e.section] : e \in r}
      [] q.op = "dump" -> Elems(q.r) = r /\ Len(q.r) = Cardinality(r)
      [] OTHER -> TRUE
Judge(q, s) ==
    IF q.op = "add" /\ ~Added(regs[q.reg].entries, q.e, q.h).ok THEN (IF q.exc = "" THEN <<"NoError", q.h>> ELSE <<"", "">>)
    ELSE IF q.exc # "" THEN <<"Exception", q.exc>>
    ELSE IF ~Fine(q) THEN <<q.op, <<q.n, q.f, q.m, q.r>>>>
    ELSE IF Elems(q.keys) # {e.q : e \in s[IF q.op \in {"new", "copy"} THEN Len(s) ELSE q.reg].entries} THEN <<"Keys", q.keys>>
    ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               s == After(q)
               v == Judge(q, s)
           IN /\ bad' = v[1] /\ regs' = s
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
