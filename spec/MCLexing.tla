----------------------------- MODULE MCLexing ------------------------------
(* The lexer as a transition system: one LexStep per action, for the given  *)
(* languages and every text up to a length.                                 *)
EXTENDS Tree, TLC, Json, IOUtils
CONSTANTS MaxLen, MaxSteps
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Langs == Data.langs
Alpha == {Data.alpha[i] : i \in 1..Len(Data.alpha)}
VARIABLES lang, text, st, n
vars == <<lang, text, st, n>>
Texts == UNION {[1..k -> Alpha] : k \in 0..MaxLen}
Init == lang \in 1..Len(Langs) /\ text \in Texts /\ st = LexInit(<<<<1, NoneStr>>>>, 0) /\ n = 0
Next == /\ ~ st.done /\ st' = LexStep(Langs[lang], text, st) /\ n' = n + 1
        /\ UNCHANGED <<lang, text>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllLx == FlattenSeq([i \in 1..Len(st.out) |-> st.out[i].lexemes])
Ascending == \A i \in 1..(Len(AllLx) - 1) : AllLx[i][1] + Len(AllLx[i][2]) <= AllLx[i+1][1]
IsText == \A i \in 1..Len(AllLx) : /\ AllLx[i][2] # <<>>
                                   /\ Slice(text, AllLx[i][1], AllLx[i][1] + Len(AllLx[i][2])) = AllLx[i][2]
Monotone == [][st'.pos >= st.pos]_vars
WithinText == st.pos <= Len(text)
RootStays == Len(st.stack) >= 1 /\ st.stack[1] = <<1, NoneStr>>
(* replaying the targets of the events gives the stack at the last event    *)
Replay == LET F[i \in 0..Len(st.out)] ==
                IF i = 0 THEN <<<<1, NoneStr>>>>
                ELSE SubSeq(F[i-1], 1, Len(F[i-1]) - st.out[i].pop) \o st.out[i].push
          IN SubSeq(F[Len(st.out)], 1, st.low) = SubSeq(st.stack, 1, st.low)
FewSteps == n <= MaxSteps
TreeOk == st.done => LET fl == FlatTree(st.out) IN
            TokenTextOk(fl, text) /\ AscendOk(fl) /\ NoEmptyContext(fl) /\ GroupsOk(fl)
Terminates == <>st.done
============================================================================
