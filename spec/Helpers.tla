------------------------------ MODULE Helpers ------------------------------
(* Dispatchers, switches, and helpers on streams of ranges and lists.       *)
EXTENDS Integers, Sequences, FiniteSets
(* Classes: [mro: the class and its ancestors in order of resolution,       *)
(* has: defines a dispatcher, dflt: with a default method, table: sequence  *)
(* of <<key, name>>, meths: names of the methods it defines]. The answer is *)
(* <<class that defines the method, name>> or <<>>.                         *)
FirstC(s, P(_)) == LET S == {i \in 1..Len(s) : P(s[i])} IN IF S = {} THEN 0 ELSE s[CHOOSE i \in S : \A j \in S : i <= j]
Keys(c) == {c.table[i][1] : i \in 1..Len(c.table)}
NameOf(c, key) == LET S == {i \in 1..Len(c.table) : c.table[i][1] = key} IN c.table[CHOOSE i \in S : \A j \in S : j <= i][2]
Defines(c, n) == \E i \in 1..Len(c.meths) : c.meths[i] = n
MethodFor(Cs, o, key) ==
    LET c == FirstC(Cs[o].mro, LAMBDA k : Cs[k].has /\ key \in Keys(Cs[k])) IN
    IF c = 0 THEN <<>>
    ELSE LET n == NameOf(Cs[c], key) IN <<FirstC(Cs[o].mro, LAMBDA k : Defines(Cs[k], n)), n>>
(* the default of the dispatcher that the class gets                        *)
DefaultFor(Cs, o) ==
    LET c == FirstC(Cs[o].mro, LAMBDA k : Cs[k].has) IN IF Cs[c].dflt THEN <<c, "default">> ELSE <<>>
Dispatched(Cs, o, key) == IF MethodFor(Cs, o, key) # <<>> THEN MethodFor(Cs, o, key) ELSE DefaultFor(Cs, o)

(* ranges <<pos, end, rest>> in order                                       *)
Clip(s, start, end) ==
    <<>> \o [i \in 1..Len(s) |->
        <<IF i = 1 /\ start # 0 /\ s[i][1] < start THEN start ELSE s[i][1],
          IF i = Len(s) /\ end # -1 /\ s[i][2] > end THEN end ELSE s[i][2], s[i][3]>>]
RECURSIVE Merge(_)
Merge(s) ==
    IF Len(s) < 2 THEN s
    ELSE IF s[2][1] <= s[1][2] /\ s[2][3] = s[1][3]
         THEN Merge(<< <<s[1][1], s[2][2], s[1][3]>> >> \o SubSeq(s, 3, Len(s)))
    ELSE <<s[1]>> \o Merge(Tail(s))
RECURSIVE Split(_, _)
Split(s, x) == LET S == {i \in 1..Len(s) : s[i] = x} IN
               IF S = {} THEN <<s>>
               ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), x)
(* the tokens of some nodes, also backward                                  *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
TokensOf(s, back) == LET f == Flat(s) IN IF back THEN <<>> \o [i \in 1..Len(f) |-> f[Len(f) + 1 - i]] ELSE f
(* a nested list as a list of <<depth, leaf>>: the leaves in order          *)
Leaves(s) == <<>> \o [i \in 1..Len(s) |-> s[i][2]]
============================================================================
