----------------------------- MODULE MCQueries -----------------------------
(* Laws of queries on all small trees, grown as in MCNav with two lexicons, *)
(* texts and actions.                                                       *)
EXTENDS Queries, TLC
CONSTANTS MaxNodes
VARIABLES fl, pos
Init == fl = <<>> /\ pos = 0
D == IF fl = <<>> THEN 1 ELSE fl[Len(fl)][1]
Tok(d, p, n) == <<d, "T", p, [i \in 1..n |-> 96 + n], n, -99>>
Next == /\ Len(fl) < MaxNodes
        /\ \E d \in 1..D, up \in 0..2, n \in 1..2 :
             /\ Len(fl) + 1 + up <= MaxNodes
             /\ fl' = fl \o [i \in 1..up |-> <<d + i - 1, "C", 1 + ((d + i) % 2), <<>>>>] \o <<Tok(d + up, pos, n)>>
             /\ pos' = pos + n
T == [fl |-> fl, par |-> ParOf(fl), root |-> 1]
Every == AllOf(T, 0)
S(s) == {s[k] : k \in 1..Len(s)}
Q(op, a, b, ts, ls, inv) == [op |-> op, a |-> a, b |-> b, c |-> NONE, ts |-> ts, ls |-> ls, inv |-> inv]
Plain(op) == Q(op, NONE, NONE, <<>>, <<>>, FALSE)
Do(ns, op) == Apply(T, ns, Plain(op))
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
TokenNodes == Do(Every, "tokens")
(* the questions that can be inverted, and the nodes they are about         *)
Filters == {<<"len", n, NONE, <<>>, <<>>>> : n \in 0..2} \cup {<<"len", 1, 2, <<>>, <<>>>>}
           \cup {<<"call", NONE, NONE, <<<<97>>>>, <<1>>>>, <<"call", NONE, NONE, <<<<97>>, <<98, 98>>>>, <<1, 2>>>>, <<"call", NONE, NONE, <<>>, <<>>>>}
           \cup {<<op, NONE, NONE, <<<<98>>>>, <<>>>> : op \in {"startingwith", "endingwith", "containing", "matching", "matching^"}}
           \cup {<<op, NONE, NONE, <<>>, <<2>>>> : op \in {"action", "in_action"}}
About(op) == IF op = "call" THEN Every ELSE IF op = "len" THEN Do(Every, "contexts") ELSE TokenNodes
Laws ==
    /\ Sorted(Every) /\ S(Every) = 0..Len(fl)
    /\ S(TokenNodes) \cup S(Do(Every, "contexts")) = S(Every) /\ S(TokenNodes) \cap S(Do(Every, "contexts")) = {}
    (* a question and its inverse divide the nodes *)
    /\ \A f \in Filters :
         LET y == Apply(T, Every, Q(f[1], f[2], f[3], f[4], f[5], FALSE))
             n == Apply(T, Every, Q(f[1], f[2], f[3], f[4], f[5], TRUE))
         IN Sorted(y) /\ Sorted(n) /\ S(y) \cap S(n) = {} /\ S(y) \cup S(n) = S(About(f[1]))
    (* children and parents *)
    /\ S(Do(Every, "children")) = S(Every) \ {0} /\ Len(Do(Every, "children")) = Len(fl)
    /\ \A i \in 1..Len(fl) : i \in S(Do(Do(<<i>>, "parent"), "children"))
    /\ \A i \in 1..Len(fl) : <<i>> = Do(Do(<<i>>, "right"), "left") \/ Do(<<i>>, "right") = <<>>
    (* the steps of a chain are applied one after the other *)
    /\ \A a, b \in {"all", "children", "parent", "alltokens", "uniq", "remove_descendants", "remove_ancestors"} :
         EvalQ(T, Every, <<Plain(a), Plain(b)>>, 1) = Do(Do(Every, a), b)
    (* any two or three nodes *)
    /\ \A X \in SUBSET (0..Len(fl)) : Cardinality(X) \in 1..3 =>
         LET ns == SelectSeq(Every, LAMBDA n : n \in X)
             rd == S(Do(ns, "remove_descendants"))  ra == S(Do(ns, "remove_ancestors"))
         IN /\ \A i, j \in rd : ~ IsAncestor(T, i, j)
            /\ \A i, j \in ra : ~ IsAncestor(T, i, j)
            /\ \A n \in X : n \in rd \/ \E m \in rd : IsAncestor(T, m, n)
            /\ \A n \in X : n \in ra \/ \E m \in ra : IsAncestor(T, n, m)
            /\ Do(ns \o ns, "uniq") = ns
            (* what is left after deleting is a tree without empty contexts, *)
            (* the tokens that are left keep their order                      *)
            /\ LET w == Without(T, ns)  G == Gone(T, ns) IN
               /\ NoEmptyContext(w)
               /\ \A i \in (1..Len(fl)) \ G : T.par[i] \notin G
               /\ (X \ {0}) \subseteq G
               /\ Len(w) = Len(fl) - Cardinality(G)
               /\ \A i \in G : IsTk(T, i) => i \in X \/ 0 \in X \/ \E a \in X : IsAncestor(T, a, i)
=============================================================================
