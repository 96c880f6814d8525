---------------------------- MODULE HelperTrace ----------------------------
(* Trace: [classes, nsw, ev]; line: [op, o: class, key, args, r, sw, val,   *)
(* s, a, b, x, exc]. Switches are counted per switch and instance.          *)
EXTENDS Helpers, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, on
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ on = <<>> \o [i \in 1..Traces[t].nsw |-> 0]
Want(Cs, ev) ==
    CASE ev.op = "call" -> LET f == Dispatched(Cs, ev.o, ev.key) IN
                           IF f = <<>> THEN <<>> ELSE <<f, IF f[2] = "default" THEN <<ev.key>> \o ev.args ELSE ev.args>>
      [] ev.op = "get" -> LET f == MethodFor(Cs, ev.o, ev.key) IN IF f = <<>> THEN <<>> ELSE <<f, ev.args>>
      [] ev.op = "default" -> LET f == DefaultFor(Cs, ev.o) IN IF f = <<>> THEN <<>> ELSE <<f, ev.args>>
      [] ev.op = "clip" -> Clip(ev.s, ev.a, ev.b)
      [] ev.op = "merge" -> Merge(ev.s)
      [] ev.op \in {"actions", "langs"} -> Merge(ev.s)
      [] ev.op = "tokens" -> TokensOf(ev.s, ev.a = 1)
      [] ev.op = "split" -> Split(ev.s, ev.a)
      [] ev.op = "unroll" -> Leaves(ev.s)
      [] ev.op = "on" -> <<>> \o [i \in 1..Len(on) |-> IF on[i] > 0 THEN 1 ELSE 0]
      [] OTHER -> <<>>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l + 1]
               v == IF ev.exc # "" THEN "Exception" ELSE IF ev.r # Want(Traces[t].classes, ev) THEN ev.op ELSE ""
           IN /\ bad' = v
              /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, ev, IF ev.exc = "" THEN Want(Traces[t].classes, ev) ELSE <<>>>>)
              /\ on' = CASE ev.op = "enter" -> [on EXCEPT ![ev.a] = @ + 1]
                         [] ev.op = "exit" -> [on EXCEPT ![ev.a] = @ - 1]
                         [] OTHER -> on
        /\ l' = l + 1 /\ t' = t
============================================================================
