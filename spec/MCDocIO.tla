------------------------------ MODULE MCDocIO -------------------------------
(* A file is loaded, the document edited, saved and loaded again, in any    *)
(* encoding and with any newline style: the text comes back.                *)
EXTENDS DocIO
CONSTANTS MaxLen, MaxSteps
VARIABLES text, enc, data, saved, steps
Chars == {10, 97, 233, 8364, 119070, 65279}
Nls == {"none", "lf", "crlf"}
vars == <<text, enc, data, saved, steps>>
Init == text = <<>> /\ enc \in {""} \cup Encodings /\ data = <<>> /\ saved = <<>> /\ steps = 0
Type == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c) /\ UNCHANGED <<enc, data, saved, steps>>
Writable(e, s) == CanEncode(e, s)
SaveIt == steps < MaxSteps /\ \E g \in {""} \cup Encodings, nl \in Nls :
    LET e == SaveEnc(enc, "", g, "") IN
    /\ Writable(e, text)
    /\ data' = SaveData(text, e, nl) /\ saved' = text /\ enc' = (IF g = "" THEN enc ELSE g)
    /\ steps' = steps + 1 /\ UNCHANGED text
\* encodings without a mark are specified when loading, the others need not
LoadIt == steps < MaxSteps /\ \E g \in {"", enc} :
    /\ enc \in {"ascii", "latin1", "utf16le", "utf16be", "utf32le", "utf32be"} => g = enc
    /\ text' = LoadText(data, "", g, "", "none") /\ enc' = LoadEnc(data, "", g)
    /\ steps' = steps + 1 /\ UNCHANGED <<data, saved>>
Next == Type \/ SaveIt \/ LoadIt
\* texts that start with what is a mark in the encoding used are not kept
Ambiguous == saved # <<>> /\ saved[1] = 65279
RoundTrip == ENABLED LoadIt /\ ~Ambiguous =>
    \A g \in {"", enc} : (enc \in {"ascii", "latin1", "utf16le", "utf16be", "utf32le", "utf32be"} => g = enc)
        => LoadText(data, "", g, "", "none") = saved
NoMark == \A e \in Encodings : CanEncode(e, text) /\ text # <<>> /\ text[1] # 65279 =>
    LET d == SaveData(text, e, "none") s == LoadText(d, "", e, "", "none") IN s # <<>> /\ s[1] # 65279
Inverse == \A e \in Encodings : CanEncode(e, text) /\ (text = <<>> \/ text[1] # 65279) => LoadText(SaveData(text, e, "crlf"), "", e, "", "none") = text
============================================================================
