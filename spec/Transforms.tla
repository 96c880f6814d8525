----------------------------- MODULE Transforms ----------------------------
(* What transforming a tree means. The tree is a flat list (Tree), M gives  *)
(* for every lexicon 0: no method, 1: a method, 2: a method that wants      *)
(* untransformed contexts.                                                  *)
EXTENDS Tree

Meth(M, lx) == IF lx >= 1 /\ lx <= Len(M) THEN M[lx] ELSE 0
Frame(kind, lx, arg) == [kind |-> kind, lx |-> lx, arg |-> arg, items |-> <<>>, raw |-> <<>>]

(* close the frames above depth d                                           *)
RECURSIVE Close(_, _)
Close(st, d) ==
    IF Len(st.stack) <= d THEN st
    ELSE LET n == Len(st.stack)
             f == st.stack[n]
             below == SubSeq(st.stack, 1, n - 1)
             add(x) == IF n = 1 THEN below ELSE [below EXCEPT ![n-1].items = Append(@, x)]
         IN Close(CASE f.kind = "m" ->
                    [calls |-> Append(st.calls, [lx |-> f.lx, arg |-> f.arg, items |-> f.items]),
                     stack |-> add(<<"I", f.lx, Len(st.calls) + 1>>)]
                    [] f.kind = "u" -> [calls |-> st.calls, stack |-> add(<<"U", f.lx, f.raw>>)]
                    [] OTHER -> [calls |-> st.calls, stack |-> below], d)

(* hand a node to all frames that collect an untransformed context          *)
Raw(stack, n) ==
    IF \A i \in 1..Len(stack) : stack[i].kind # "u" THEN stack
    ELSE <<>> \o [i \in 1..Len(stack) |-> IF stack[i].kind = "u"
                             THEN [stack[i] EXCEPT !.raw = Append(@, [n EXCEPT ![1] = @ - (i - 1)])]
                             ELSE stack[i]]

(* the calls of transform methods: [lx, arg, items]; an item is a token     *)
(* <<"T", pos, text, action, group>>, the result of call number k           *)
(* <<"I", lexicon, k>>, or an untransformed context <<"U", lexicon, nodes>> *)
Calls(fl, root, M) ==
    LET Kind(parent, lx) ==
            IF parent.kind # "m" THEN "skip"
            ELSE IF Meth(M, lx) > 0 THEN "m"
            ELSE IF Meth(M, parent.lx) = 2 THEN "u" ELSE "skip"
        F[i \in 0..Len(fl)] ==
            IF i = 0 THEN [calls |-> <<>>, stack |-> <<Frame(IF Meth(M, root[1]) > 0 THEN "m" ELSE "skip", root[1], root[2])>>]
            ELSE LET p == F[i-1]
                     n == fl[i]
                     st == Close(p, n[1])
                     stack == Raw(st.stack, n)
                     top == stack[Len(stack)]
                 IN IF IsTok(n)
                    THEN [st EXCEPT !.stack = [stack EXCEPT ![Len(stack)].items =
                            IF top.kind = "m" THEN Append(@, <<"T", n[3], n[4], n[5], n[6]>>) ELSE @]]
                    ELSE [st EXCEPT !.stack = Append(stack, Frame(Kind(top, n[3]), n[3], n[4]))]
    IN IF root[1] = 0 THEN <<>> ELSE Close(F[Len(fl)], 0).calls

(* What an item list tells about its items. Objects are the numbers of the  *)
(* calls that gave them; 0: missing.                                        *)
IsTokItem(x) == x[1] = "T"
Where(items, P(_)) == SelectSeq(<<>> \o [k \in 1..Len(items) |-> k], LAMBDA k : P(items[k]))
(* groups of objects with the names (lexicons) in order                     *)
Grouped(items, names) ==
    LET its == SelectSeq(items, LAMBDA x : x[1] = "I" /\ \E j \in 1..Len(names) : names[j] = x[2])
        at(x) == CHOOSE j \in 1..Len(names) : names[j] = x[2]
        none == <<>> \o [j \in 1..Len(names) |-> 0]
        F[i \in 0..Len(its)] ==
            IF i = 0 THEN [out |-> <<>>, cur |-> none, last |-> 0]
            ELSE LET p == F[i-1]
                     j == at(its[i])
                 IN IF p.last > 0 /\ j <= p.last
                    THEN [out |-> Append(p.out, p.cur), cur |-> [none EXCEPT ![j] = its[i][3]], last |-> j]
                    ELSE [p EXCEPT !.cur[j] = its[i][3], !.last = j]
    IN IF its = <<>> THEN <<>> ELSE Append(F[Len(its)].out, F[Len(its)].cur)
(* the value to compare an item with: <<kind, action or lexicon>>           *)
PeekValue(x) == CASE x[1] = "T" -> <<"T", x[4]>> [] x[1] = "I" -> <<"I", x[2]>> [] OTHER -> <<"U", 0>>
Peek(items, index, vals) ==
    LET i == IF index < 0 THEN index + Len(items) ELSE index IN
    /\ i >= 0 /\ i + Len(vals) <= Len(items)
    /\ \A k \in 1..Len(vals) : PeekValue(items[i + k]) = vals[k]

(* The structure that is the result of methods that just build a nested     *)
(* list: <<depth, "C", lexicon, arg>>, <<depth, "T", text, action>>,        *)
(* <<depth, "U", lexicon>> with plain nodes below it; <<>> if no method for *)
(* the root.                                                                *)
Structure(fl, root, M) ==
    LET F[i \in 0..Len(fl)] ==
            IF i = 0 THEN [out |-> <<<<0, "C", root[1], root[2]>>>>, st |-> <<"m">>, lx |-> <<root[1]>>]
            ELSE LET p == F[i-1]
                     n == fl[i]
                     st == SubSeq(p.st, 1, n[1])
                     lx == SubSeq(p.lx, 1, n[1])
                     k == st[n[1]]
                 IN IF IsTok(n)
                    THEN [p EXCEPT !.st = st, !.lx = lx,
                                   !.out = IF k = "skip" THEN @ ELSE Append(@, <<n[1], "T", n[4], n[5]>>)]
                    ELSE LET kind == IF k = "u" THEN "u"
                                     ELSE IF k = "skip" THEN "skip"
                                     ELSE IF Meth(M, n[3]) > 0 THEN "m"
                                     ELSE IF Meth(M, lx[n[1]]) = 2 THEN "u" ELSE "skip"
                         IN [st |-> Append(st, kind), lx |-> Append(lx, n[3]),
                             out |-> CASE kind = "skip" -> p.out
                                       [] kind = "u" -> Append(p.out, <<n[1], "U", n[3]>>)
                                       [] OTHER -> Append(p.out, <<n[1], "C", n[3], n[4]>>)]
    IN IF root[1] = 0 \/ Meth(M, root[1]) = 0 THEN <<>> ELSE F[Len(fl)].out
============================================================================
