----------------------------- MODULE DocIOTrace -----------------------------
(* Trace: [ev]; the state is the document [text, enc, mod] and the files.   *)
(* Lines: load [file or data, mention, given, dflt, nl], save [file, given, *)
(* nl, mention, dflt], edit [text], put [file, data], each with what was    *)
(* observed: text, enc (of the document), mod, data (of the file)           *)
EXTENDS DocIO, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, doc, fs
NoDoc == [text |-> <<>>, enc |-> "", mod |-> FALSE]
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ doc = NoDoc /\ fs = <<>>
FileOf(f) == IF f \in DOMAIN fs THEN fs[f] ELSE <<>>
WithFile(f, d) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN d ELSE fs[x]]
\* [doc, fs, fails] after the line
After(q) ==
    CASE q.op = "put" -> [doc |-> doc, fs |-> WithFile(q.file, q.indata), fails |-> FALSE]
      [] q.op = "edit" -> [doc |-> [doc EXCEPT !.text = q.intext, !.mod = TRUE], fs |-> fs, fails |-> FALSE]
      \* a url that is not a local file
      [] q.op = "remote" -> [doc |-> doc, fs |-> fs, fails |-> TRUE]
      [] q.op = "new" -> [doc |-> [text |-> q.intext, enc |-> q.given, mod |-> FALSE], fs |-> fs, fails |-> FALSE]
      [] q.op = "load" ->
            LET d == FileOf(q.file)
                s == LoadText(d, q.mention, q.given, q.dflt, q.nl)
            IN IF s = Bad THEN [doc |-> doc, fs |-> fs, fails |-> TRUE]
               ELSE [doc |-> [text |-> s, enc |-> LoadEnc(d, q.mention, q.given), mod |-> FALSE], fs |-> fs, fails |-> FALSE]
      [] q.op \in {"save", "bytes"} ->
            LET e == SaveEnc(doc.enc, q.mention, q.given, q.dflt)
            IN IF ~CanEncode(e, doc.text)
               THEN [doc |-> [doc EXCEPT !.enc = IF q.op = "bytes" \/ q.given = "" THEN @ ELSE q.given], fs |-> fs, fails |-> TRUE]
               ELSE LET w == SaveData(doc.text, e, q.nl) IN
                    IF q.op = "bytes" THEN [doc |-> doc, fs |-> WithFile(q.file, w), fails |-> FALSE]
                    ELSE [doc |-> [doc EXCEPT !.mod = FALSE, !.enc = IF q.given = "" THEN @ ELSE q.given],
                          fs |-> WithFile(q.file, w), fails |-> FALSE]
Judge(q, x) ==
    IF q.exc # "" /\ ~x.fails THEN <<"Exception", q.exc>>
    ELSE IF q.exc = "" /\ x.fails THEN <<"NoError", q.op>>
    ELSE IF q.op = "remote" /\ q.err # "ValueError" THEN <<"Remote", q.how>>
    ELSE IF q.text # x.doc.text THEN <<"Text", x.doc.text>>
    \* a failed save may or may not have remembered the encoding
    ELSE IF q.enc # x.doc.enc /\ ~(x.fails /\ q.enc = doc.enc) THEN <<"Encoding", <<q.enc, x.doc.enc>>>>
    ELSE IF q.mod # x.doc.mod THEN <<"Modified", q.mod>>
    ELSE IF q.file \in DOMAIN x.fs /\ q.data # x.fs[q.file] THEN <<"Data", x.fs[q.file]>>
    ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               x == After(q)
               v == Judge(q, x)
           IN /\ bad' = v[1] /\ doc' = [x.doc EXCEPT !.enc = IF v[1] = "" THEN q.enc ELSE @] /\ fs' = x.fs
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], q.op, v[2]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
