-------------------------------- MODULE Tree --------------------------------
(* Trees as a flat list in document order:                                  *)
(*   <<depth, "C", lexicon, arg>>               a context                   *)
(*   <<depth, "T", pos, text, action, group>>   a token                     *)
(* The root itself (depth 0) is not in the list.                            *)
EXTENDS Lexing

GroupNo(i, n) == IF n = 1 THEN -99 ELSE IF i = n THEN -(i - 1) ELSE i - 1

(* the tree an event stream describes                                       *)
FlatTree(events) ==
    LET F[i \in 0..Len(events)] ==
          IF i = 0 THEN [out |-> <<>>, d |-> 1]
          ELSE LET f == F[i-1]  e == events[i]
                   d0 == f.d - e.pop
                   cs == [j \in 1..Len(e.push) |-> <<d0 + j - 1, "C", e.push[j][1], e.push[j][2]>>]
                   d1 == d0 + Len(e.push)
                   n == Len(e.lexemes)
                   ts == [j \in 1..n |-> <<d1, "T", e.lexemes[j][1], e.lexemes[j][2], e.lexemes[j][3], GroupNo(j, n)>>]
               IN [out |-> f.out \o cs \o ts, d |-> d1]
    IN F[Len(events)].out

IsTok(n) == n[2] = "T"
Toks(flat) == SelectSeq(flat, IsTok)

(* ---- well-formedness of a flat tree for a text -------------------------- *)
TokenTextOk(flat, text) ==
    \A i \in 1..Len(flat) : IsTok(flat[i]) =>
        /\ flat[i][4] # <<>>
        /\ flat[i][3] >= 0
        /\ Slice(text, flat[i][3], flat[i][3] + Len(flat[i][4])) = flat[i][4]
AscendOk(flat) ==
    LET ts == Toks(flat) IN
    \A i \in 1..(Len(ts) - 1) : ts[i][3] + Len(ts[i][4]) <= ts[i+1][3]
(* a context is followed by something inside it                             *)
NoEmptyContext(flat) ==
    \A i \in 1..Len(flat) : ~ IsTok(flat[i]) =>
        i < Len(flat) /\ flat[i+1][1] = flat[i][1] + 1
GroupsOk(flat) == \* 0, 1, 2, …, negative last; siblings without anything between
    \A i \in 1..Len(flat) : IsTok(flat[i]) /\ flat[i][6] # -99 =>
        LET g == flat[i][6] IN
        /\ g >= 0 => i < Len(flat) /\ flat[i+1][1] = flat[i][1] /\ IsTok(flat[i+1])
                     /\ (flat[i+1][6] = g + 1 \/ flat[i+1][6] = -(g + 1))
        /\ g # 0 => i > 1 /\ flat[i-1][1] = flat[i][1] /\ IsTok(flat[i-1])
                     /\ flat[i-1][6] = (IF g < 0 THEN -g ELSE g) - 1
(* open lexicons: replaying the targets of all events from the root         *)
============================================================================
