--------------------------- MODULE ValidateTrace ---------------------------
(* Trace: [classes, ev]; line: [op, c: class, n: lexicon name, ok, err,     *)
(* warn, names, s, has, text, exc].                                         *)
EXTENDS Validate, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
SetOf(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
All(Cs) == UNION {Lexicons(Cs, c) : c \in 1..Len(Cs)}
(* the languages validation promises to be safe: no errors, no pattern that *)
(* matches the empty string, no default target that both leaves and enters  *)
Safe(Cs) == \A lx \in All(Cs) :
    /\ Errors(Cs, lx) = {} /\ "empty" \notin Warnings(Cs, lx)
    /\ LET d == DTargets(RulesOf(Cs, lx)) IN
       \A i \in 1..Len(d) : ~ (/\ \E k \in 1..Len(d[i].tgt) : d[i].tgt[k].t = "num" /\ d[i].tgt[k].n < 0
                               /\ Len(d[i].tgt) > 1)
Judge(Cs, ev) ==
    CASE ev.exc # "" -> "Exception"
      [] ev.op = "lexicon" ->
            LET e == Errors(Cs, <<ev.c, ev.n>>)  w == Warnings(Cs, <<ev.c, ev.n>>) IN
            IF ev.ok # (e = {}) \/ ev.err # (e # {}) THEN "Errors" ELSE IF ev.warn # (w # {}) THEN "Warnings" ELSE ""
      [] ev.op = "language" ->
            IF ev.ok # Valid(Cs, ev.c) THEN "Language"
            ELSE IF ev.warn # (\E lx \in Lexicons(Cs, ev.c) : Errors(Cs, lx) \cup Warnings(Cs, lx) # {}) THEN "Printed" ELSE ""
      [] ev.op = "lexicons" -> IF NoDup(ev.names) /\ SetOf(ev.names) = NamesOf(Cs, ev.c) THEN "" ELSE "Lexicons"
      [] ev.op = "actions" -> IF SetOf(ev.s) = ActionsIn(Cs, ev.c) THEN "" ELSE "Actions"
      [] ev.op = "langs" -> IF SetOf(ev.s) = LanguagesIn(Cs, ev.c) THEN "" ELSE "Languages"
      [] ev.op = "transform" ->
            LET miss == NamesOf(Cs, ev.c) \ SetOf(ev.has) IN
            IF ev.ok # (miss = {}) \/ SetOf(ev.names) # miss THEN "Transform" ELSE ""
      [] ev.op = "lex" -> IF ev.ok \/ ~ Safe(Cs) THEN "" ELSE "Terminates"
      [] OTHER -> "Op"
Expect(Cs, ev) ==
    CASE ev.op = "lexicon" -> <<Errors(Cs, <<ev.c, ev.n>>), Warnings(Cs, <<ev.c, ev.n>>)>>
      [] ev.op = "actions" -> ActionsIn(Cs, ev.c)
      [] ev.op = "langs" -> LanguagesIn(Cs, ev.c)
      [] OTHER -> NamesOf(Cs, ev.c)
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l + 1]
               v == Judge(Traces[t].classes, ev)
           IN /\ bad' = v
              /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, ev, IF ev.exc = "" THEN Expect(Traces[t].classes, ev) ELSE {}>>)
        /\ l' = l + 1 /\ t' = t
=============================================================================
