------------------------------- MODULE MCCss --------------------------------
(* Sheets grow rule by rule; the cascade of Css.tla is compared with an     *)
(* operational one that keeps a current value per property.                 *)
EXTENDS Css
CONSTANTS MaxRules
VARIABLES rules, cur
C(el, cls, ids) == [el |-> el, ids |-> ids, cls |-> cls, attrs |-> <<>>, pcs |-> <<>>, pes |-> <<>>]
A == <<97>>
K == <<107>>
One == {[c |-> <<c>>, ops |-> <<>>] : c \in {C(A, <<>>, <<>>), C(<<>>, <<K>>, <<>>), C(<<>>, <<>>, <<A>>), C(<<>>, <<>>, <<>>)}}
Two == {[c |-> <<C(A, <<>>, <<>>), C(<<>>, <<K>>, <<>>)>>, ops |-> <<o>>] : o \in {" ", ">", "+", "~"}}
\* an element a#a.k with a parent a, and two siblings before it
Els == << [par |-> 0, name |-> A, attrs |-> <<>>, pcs |-> <<>>, pes |-> <<>>],
          [par |-> 1, name |-> A, attrs |-> <<>>, pcs |-> <<>>, pes |-> <<>>],
          [par |-> 1, name |-> K, attrs |-> <<>>, pcs |-> <<>>, pes |-> <<>>],
          [par |-> 1, name |-> A, attrs |-> << <<CssClass, K>>, <<CssId, A>> >>, pcs |-> <<>>, pes |-> <<>>] >>
Rules == [k : {"rule"}, sels : {<<s>> : s \in One \cup Two} \cup {<<s, z>> : s \in One, z \in {CHOOSE z \in Two : TRUE}},
          decls : {<<[p |-> p, v |-> v, imp |-> i]>> : p \in {"p"}, v \in {"u", "v"}, i \in BOOLEAN}]
Init == rules = <<>> /\ cur = <<-1, -1, "">>
\* a new rule replaces the current value unless that is stronger
Apply(c, r) == LET i == IF r.decls[1].imp THEN 1 ELSE 0
                   n == RuleSpec(r)
               IN IF RuleMatches(Els, 4, r) /\ (i > c[1] \/ (i = c[1] /\ n >= c[2])) THEN <<i, n, r.decls[1].v>> ELSE c
Next == Len(rules) < MaxRules /\ \E r \in Rules : rules' = Append(rules, r) /\ cur' = Apply(cur, r)
Got == Computed(rules, Els, 4)
OneWinner == Cardinality(Got) <= 1
Folded == Got = (IF cur[1] < 0 THEN {} ELSE {<<"p", cur[3]>>})
\* elements that match no rule get nothing, adding a sheet to itself changes nothing
Stable == Computed(rules \o rules, Els, 4) = Got
============================================================================
