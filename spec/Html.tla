-------------------------------- MODULE Html --------------------------------
(* A reader of HTML as a state machine. The input comes in pieces (code     *)
(* sequences): either one of < > & ; " or a run of other characters. The    *)
(* reader keeps the stack of open elements <<name, attribute value>> and    *)
(* says what text every piece shows, and whether the input is well-formed.  *)
EXTENDS Integers, Sequences
Str(s) == s
Letters == (65..90) \cup (97..122)
Nl == 10
WhiteSp == {9, 10, 13, 32}
R0 == [mode |-> "text", raw |-> <<>>, val |-> <<>>, ent |-> <<>>, stack |-> <<>>, fresh |-> FALSE, ok |-> TRUE]
\* entities as code sequences
Amp == <<97, 109, 112>>   Lt == <<108, 116>>   Gt == <<103, 116>>   Quot == <<113, 117, 111, 116>>   Apos == <<97, 112, 111, 115>>
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
IsEnt(e) == e \in {Amp, Lt, Gt, Quot, Apos} \/ (Len(e) > 1 /\ e[1] = 35 /\ \A k \in 2..Len(e) : e[k] \in 48..57)
EntChar(e) == CASE e = Amp -> 38 [] e = Lt -> 60 [] e = Gt -> 62 [] e = Quot -> 34 [] e = Apos -> 39 [] OTHER -> Num(Tail(e))
NameOf(raw) == LET S == {k \in 1..Len(raw) : raw[k] \notin Letters}
                   n == IF S = {} THEN Len(raw) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
               IN SubSeq(raw, 1, n)
Pre == <<112, 114, 101>>
\* the end of a tag
TagDone(r) ==
    LET raw == r.raw
        back == [r EXCEPT !.mode = "text", !.raw = <<>>, !.val = <<>>, !.fresh = FALSE]
    IN IF raw = <<>> THEN [r EXCEPT !.ok = FALSE]
       ELSE IF raw[1] = 33 \/ raw[Len(raw)] = 47 THEN back
       ELSE IF raw[1] = 47 THEN
            IF r.stack # <<>> /\ r.stack[Len(r.stack)][1] = NameOf(Tail(raw)) /\ NameOf(Tail(raw)) = Tail(raw)
            THEN [back EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)] ELSE [r EXCEPT !.ok = FALSE]
       ELSE IF NameOf(raw) = <<>> THEN [r EXCEPT !.ok = FALSE]
       ELSE [back EXCEPT !.stack = Append(@, <<NameOf(raw), SubSeq(raw, Len(NameOf(raw)) + 1, Len(raw)), r.val>>),
                         !.fresh = NameOf(raw) = Pre]
Fail(r) == [r EXCEPT !.ok = FALSE]
\* the reader after piece c
ReadPiece(r, c) ==
    CASE r.mode = "text" ->
            IF c = <<60>> THEN [r EXCEPT !.mode = "tag"]
            ELSE IF c = <<38>> THEN [r EXCEPT !.mode = "ent"]
            ELSE [r EXCEPT !.fresh = FALSE]
      [] r.mode = "ent" ->
            IF c = <<59>> THEN IF IsEnt(r.ent) THEN [r EXCEPT !.mode = "text", !.ent = <<>>, !.fresh = FALSE] ELSE Fail(r)
            ELSE IF c \in {<<60>>, <<38>>, <<62>>, <<34>>} \/ r.ent # <<>> THEN Fail(r)
            ELSE [r EXCEPT !.ent = c]
      [] r.mode = "tag" ->
            IF c = <<62>> THEN TagDone(r)
            ELSE IF c = <<34>> THEN (IF r.val = <<>> THEN [r EXCEPT !.mode = "val"] ELSE Fail(r))
            ELSE IF c \in {<<60>>, <<38>>, <<59>>} THEN Fail(r)
            ELSE [r EXCEPT !.raw = @ \o c]
      [] r.mode = "val" ->
            IF c = <<34>> THEN [r EXCEPT !.mode = "tag"]
            ELSE IF c = <<38>> THEN [r EXCEPT !.mode = "valent"]
            ELSE IF c = <<60>> THEN Fail(r)
            ELSE [r EXCEPT !.val = @ \o c]
      [] r.mode = "valent" ->
            IF c = <<59>> THEN IF IsEnt(r.ent) THEN [r EXCEPT !.mode = "val", !.val = Append(@, EntChar(r.ent)), !.ent = <<>>] ELSE Fail(r)
            ELSE IF c \in {<<60>>, <<38>>, <<62>>, <<34>>} \/ r.ent # <<>> THEN Fail(r)
            ELSE [r EXCEPT !.ent = c]
\* the text that piece c shows
Shown(r, c) ==
    IF r.mode = "text" /\ c \notin {<<60>>, <<38>>}
    THEN IF r.fresh /\ c[1] = Nl THEN Tail(c) ELSE c
    ELSE IF r.mode = "ent" /\ c = <<59>> /\ IsEnt(r.ent) THEN <<EntChar(r.ent)>>
    ELSE <<>>
\* escaping, for the model
Esc(x, attr) == CASE x = 38 -> <<38>> \o Amp \o <<59>> [] x = 60 -> <<38>> \o Lt \o <<59>> [] x = 62 -> <<38>> \o Gt \o <<59>>
                  [] x = 34 /\ attr -> <<38>> \o Quot \o <<59>> [] OTHER -> <<x>>
=============================================================================
