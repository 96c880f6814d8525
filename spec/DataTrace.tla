----------------------------- MODULE DataTrace -----------------------------
(* Trace: [lang, ev]; line: [text, lines: of INI, words: a list of numerals,*)
(* tree, txt: the value from transforming the tree and the text, exc].      *)
EXTENDS DataLangs, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
Means(la, ev, v) ==
    CASE la = "json" -> Same(v, JsonValue(ev.text))
      [] la = "csv" -> Same(v, Csv(ev.text))
      [] la = "ini" -> \E w \in IniMeanings(ev.lines) : Same(v, w)
      [] OTHER -> /\ v.k = "list" /\ Len(v.xs) = Len(ev.words)
                  /\ \A i \in 1..Len(ev.words) : v.xs[i].v.k = "int" /\ v.xs[i].v.s = <<V6(la, ev.words[i])>>
Judge(tr, ev) ==
    IF ev.exc # "" THEN <<"Exception", ev.exc>>
    ELSE IF ~ Means(tr.lang, ev, ev.tree) THEN <<"Tree", ev.tree>>
    ELSE IF ~ Means(tr.lang, ev, ev.txt) THEN <<"Text", ev.txt>>
    ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET v == Judge(Traces[t], Traces[t].ev[l + 1])
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
