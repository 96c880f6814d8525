----------------------------- MODULE EventTrace -----------------------------
(* Judges a log of an observable: connect [id ev f once self prio],         *)
(* disconnect [ev f], all [ev], kill [f] (a weakly connected method goes),  *)
(* emit [ev arg], call [f arg self], end, enter [f], with, exit [f], out,   *)
(* has [ev ret], is [ev f ret].                                             *)
EXTENDS Events, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, conns, dead, ems, ctxs, last, open
\* ctxs: contexts to be exited, per emit used as a context manager; open:
\* contexts that may be entered (after a call)
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ conns = <<>> /\ dead = {} /\ ems = <<>> /\ ctxs = <<>> /\ last = <<>> /\ open = 0
N == Len(ems)
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               Bad(c) == bad' = c /\ PrintT(<<"BAD", t, l + 1, c, e, conns>>)
                         /\ UNCHANGED <<conns, dead, ems, ctxs, last, open>>
               Ok == bad' = ""
           IN CASE e.op = "connect" ->
                    Ok /\ conns' = Connect(conns, [id |-> l + 1, ev |-> e.ev, f |-> e.f, once |-> e.once, self |-> e.self, prio |-> e.prio])
                    /\ UNCHANGED <<dead, ems, ctxs, last, open>>
                [] e.op = "disconnect" -> Ok /\ conns' = Disconnect(conns, e.ev, e.f) /\ UNCHANGED <<dead, ems, ctxs, last, open>>
                [] e.op = "all" -> Ok /\ conns' = (IF e.ev = 0 THEN <<>> ELSE DisconnectAll(conns, e.ev))
                                   /\ UNCHANGED <<dead, ems, ctxs, last, open>>
                [] e.op = "kill" -> Ok /\ dead' = dead \cup {e.f} /\ UNCHANGED <<conns, ems, ctxs, last, open>>
                [] e.op = "emit" -> Ok /\ ems' = Append(ems, Emission(conns, e.ev, e.arg)) /\ UNCHANGED <<conns, dead, ctxs, last, open>>
                [] e.op = "call" ->
                    IF N = 0 THEN Bad("CallOutsideEmission")
                    ELSE LET em == ems[N]
                             k == NextCall(em, conns, dead)
                             may == MayCall(em, conns, dead, e.f)
                             i == IF may # 0 THEN may ELSE k
                         IN IF i = 0 \/ em.snap[i].f # e.f THEN Bad("WrongHandler")
                            ELSE IF e.arg # em.arg THEN Bad("Arguments")
                            ELSE IF may = 0 /\ e.self # em.snap[i].self THEN Bad("PrependSelf")
                            ELSE Ok /\ ems' = [ems EXCEPT ![N] = AfterCall(em, i)]
                                 /\ conns' = ConnsAfterCall(conns, em.snap[i])
                                 /\ UNCHANGED <<dead, ctxs, last, open>>
                [] e.op = "enter" -> IF N = 0 THEN Bad("EnterOutsideEmission")
                                     ELSE Ok /\ ems' = [ems EXCEPT ![N].ctx = Append(@, e.f)] /\ UNCHANGED <<conns, dead, ctxs, last, open>>
                [] e.op = "end" ->
                    IF NextCall(ems[N], conns, dead) # 0 THEN Bad("HandlerNotCalled")
                    ELSE IF e.ctx # ems[N].ctx THEN Bad("ContextNotEntered")
                    ELSE Ok /\ last' = ems[N].ctx /\ ems' = SubSeq(ems, 1, N - 1)
                         /\ conns' = SelectSeq(conns, LAMBDA c : ~ (c.ev = ems[N].ev /\ c.f \in dead))
                         /\ UNCHANGED <<dead, ctxs, open>>
                [] e.op = "with" -> Ok /\ ctxs' = Append(ctxs, last) /\ UNCHANGED <<conns, dead, ems, last, open>>
                [] e.op = "exit" ->
                    LET n == Len(ctxs) IN
                    IF n = 0 \/ ctxs[n] = <<>> \/ ctxs[n][Len(ctxs[n])] # e.f THEN Bad("ExitOrder")
                    ELSE Ok /\ ctxs' = [ctxs EXCEPT ![n] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<conns, dead, ems, last, open>>
                [] e.op = "out" ->
                    LET n == Len(ctxs) IN
                    IF ctxs[n] # <<>> THEN Bad("NotExited")
                    ELSE Ok /\ ctxs' = SubSeq(ctxs, 1, n - 1) /\ UNCHANGED <<conns, dead, ems, last, open>>
                [] e.op = "has" ->
                    LET S == For(conns, e.ev)
                        D == {i \in 1..Len(S) : S[i].f \notin dead}
                    IN IF (e.ret /\ S = <<>>) \/ (~ e.ret /\ D # {}) THEN Bad("HasConnections")
                       ELSE Ok /\ UNCHANGED <<conns, dead, ems, ctxs, last, open>>
                [] e.op = "is" ->
                    IF e.ret # Has(conns, e.ev, e.f) THEN Bad("IsConnected")
                    ELSE Ok /\ UNCHANGED <<conns, dead, ems, ctxs, last, open>>
                [] OTHER -> Bad("Exception")
        /\ l' = l + 1 /\ t' = t
============================================================================
