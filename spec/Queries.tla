------------------------------- MODULE Queries ------------------------------
(* The meaning of a query: a list of steps [op, a, b, c, ts, ls, inv] that  *)
(* is applied to a sequence of nodes of a tree (Nav).                       *)
EXTENDS Nav
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Each(ns, F(_)) == Concat([k \in 1..Len(ns) |-> F(ns[k])])
One(x) == IF x = NoNode THEN <<>> ELSE <<x>>
Opt(s) == One(First(s))
IsCtx(T, i) == ~ IsTk(T, i)
AllOf(T, i) == IF IsTk(T, i) THEN <<i>> ELSE <<i>> \o SubSeq(Idx(T), i + 1, LastOf(T, i))
Text(T, i) == T.fl[i][4]
Lx(T, i) == IF i = 0 THEN T.root ELSE T.fl[i][3]
Act(T, i) == T.fl[i][5]
StartsW(x, s) == Len(x) >= Len(s) /\ SubSeq(x, 1, Len(s)) = s
EndsW(x, s) == Len(x) >= Len(s) /\ SubSeq(x, Len(x) - Len(s) + 1, Len(x)) = s
HasPart(x, s) == Find(x, s, 0) # -1
In(x, s) == \E k \in 1..Len(s) : s[k] = x
InAction(x, a) == x = a \/ (a = 2 /\ x = 6)     \* 6 is a child of 2
(* Python slices of a sequence; NONE for a default                          *)
PySlice(s, a, b, st) ==
    LET n == Len(s)
        step == IF st = NONE THEN 1 ELSE st
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN n ELSE n - 1
        norm(x) == IF x < 0 THEN Max2(x + n, lo) ELSE Min2(x, hi)
        i0 == IF a = NONE THEN IF step > 0 THEN 0 ELSE n - 1 ELSE norm(a)
        i1 == IF b = NONE THEN IF step > 0 THEN n ELSE -1 ELSE norm(b)
        len == IF step > 0 THEN IF i0 < i1 THEN (i1 - i0 - 1) \div step + 1 ELSE 0
               ELSE IF i1 < i0 THEN (i0 - i1 - 1) \div (-step) + 1 ELSE 0
    IN [k \in 1..len |-> s[i0 + (k - 1) * step + 1]]
KidItem(s, k) == LET i == IF k < 0 THEN k + Len(s) ELSE k IN IF i >= 0 /\ i < Len(s) THEN <<s[i + 1]>> ELSE <<>>
RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF In(Head(s), acc) THEN acc ELSE Append(acc, Head(s)))

Apply(T, ns, q) ==
    LET Sel(P(_)) == SelectSeq(ns, LAMBDA n : P(n) # q.inv)
        Tok(P(_)) == SelectSeq(ns, LAMBDA n : IsTk(T, n) /\ P(n) # q.inv)
    IN
    CASE q.op = "all" -> Each(ns, LAMBDA n : AllOf(T, n))
      [] q.op = "alltokens" -> Each(ns, LAMBDA n : TokensOf(T, n))
      [] q.op = "allcontexts" -> Each(ns, LAMBDA n : SelectSeq(AllOf(T, n), LAMBDA k : IsCtx(T, k)))
      [] q.op = "children" -> Each(ns, LAMBDA n : IF IsCtx(T, n) THEN Kids(T, n) ELSE <<>>)
      [] q.op = "parent" -> Each(ns, LAMBDA n : IF n = 0 THEN <<>> ELSE <<T.par[n]>>)
      [] q.op = "ancestors" -> Each(ns, LAMBDA n : Ancestors(T, n))
      [] q.op = "first" -> Each(ns, LAMBDA n : IF IsCtx(T, n) THEN KidItem(Kids(T, n), 0) ELSE <<>>)
      [] q.op = "last" -> Each(ns, LAMBDA n : IF IsCtx(T, n) THEN KidItem(Kids(T, n), -1) ELSE <<>>)
      [] q.op = "item" -> Each(ns, LAMBDA n : IF IsCtx(T, n) THEN KidItem(Kids(T, n), q.a) ELSE <<>>)
      [] q.op = "items" -> Each(ns, LAMBDA n : IF IsCtx(T, n) THEN PySlice(Kids(T, n), q.a, q.b, q.c) ELSE <<>>)
      [] q.op = "next" -> Each(ns, LAMBDA n : Opt(Forward(T, n, NoNode)))
      [] q.op = "previous" -> Each(ns, LAMBDA n : Opt(Backward(T, n, NoNode)))
      [] q.op = "forward" -> Each(ns, LAMBDA n : Forward(T, n, NoNode))
      [] q.op = "backward" -> Each(ns, LAMBDA n : Backward(T, n, NoNode))
      [] q.op = "right" -> Each(ns, LAMBDA n : Opt(RightSibs(T, n)))
      [] q.op = "left" -> Each(ns, LAMBDA n : Opt(LeftSibs(T, n)))
      [] q.op = "right_siblings" -> Each(ns, LAMBDA n : RightSibs(T, n))
      [] q.op = "left_siblings" -> Each(ns, LAMBDA n : LeftSibs(T, n))
      [] q.op = "map" -> Each(ns, LAMBDA n : <<n>> \o (IF n = 0 THEN <<>> ELSE <<T.par[n]>>))
      [] q.op = "filter" -> SelectSeq(ns, LAMBDA n : Pos(T, n) % 2 = 0)
      [] q.op = "tokens" -> SelectSeq(ns, LAMBDA n : IsTk(T, n))
      [] q.op = "contexts" -> SelectSeq(ns, LAMBDA n : IsCtx(T, n))
      [] q.op = "uniq" -> Uniq(ns, <<>>)
      [] q.op = "slice" -> PySlice(ns, q.a, q.b, q.c)
      [] q.op = "remove_descendants" -> SelectSeq(ns, LAMBDA n : ~ \E k \in 1..Len(ns) : IsAncestor(T, ns[k], n))
      [] q.op = "remove_ancestors" -> SelectSeq(ns, LAMBDA n : ~ \E k \in 1..Len(ns) : IsAncestor(T, n, ns[k]))
      [] q.op = "len" -> SelectSeq(ns, LAMBDA n : IsCtx(T, n) /\
                            (IF q.b = NONE THEN Len(Kids(T, n)) = q.a
                             ELSE q.a <= Len(Kids(T, n)) /\ Len(Kids(T, n)) <= q.b) # q.inv)
      [] q.op = "in_range" -> IF q.inv
                              THEN SelectSeq(ns, LAMBDA n : End(T, n) <= q.a \/ (q.b # NONE /\ Pos(T, n) >= q.b))
                              ELSE SelectSeq(ns, LAMBDA n : Pos(T, n) >= q.a /\ (q.b = NONE \/ End(T, n) <= q.b))
      [] q.op = "call" -> Sel(LAMBDA n : IF IsTk(T, n) THEN In(Text(T, n), q.ts) ELSE In(Lx(T, n), q.ls))
      [] q.op = "startingwith" -> Tok(LAMBDA n : StartsW(Text(T, n), q.ts[1]))
      [] q.op = "endingwith" -> Tok(LAMBDA n : EndsW(Text(T, n), q.ts[1]))
      [] q.op = "containing" -> Tok(LAMBDA n : HasPart(Text(T, n), q.ts[1]))
      [] q.op = "matching" -> Tok(LAMBDA n : HasPart(Text(T, n), q.ts[1]))
      [] q.op = "matching^" -> Tok(LAMBDA n : StartsW(Text(T, n), q.ts[1]))
      [] q.op = "action" -> Tok(LAMBDA n : In(Act(T, n), q.ls))
      [] q.op = "in_action" -> Tok(LAMBDA n : \E k \in 1..Len(q.ls) : InAction(Act(T, n), q.ls[k]))

RECURSIVE EvalQ(_, _, _, _)
EvalQ(T, ns, steps, i) == IF i > Len(steps) THEN ns ELSE EvalQ(T, Apply(T, ns, steps[i]), steps, i + 1)

RECURSIVE MinOf(_, _)
MinOf(s, m) == IF s = <<>> THEN m ELSE MinOf(Tail(s), Min2(m, Head(s)))
RECURSIVE MaxOf(_, _)
MaxOf(s, m) == IF s = <<>> THEN m ELSE MaxOf(Tail(s), Max2(m, Head(s)))
RangeOf(T, ns) == IF ns = <<>> THEN <<-1, -1>>
                  ELSE LET ps == [k \in 1..Len(ns) |-> Pos(T, ns[k])]
                           es == [k \in 1..Len(ns) |-> End(T, ns[k])]
                       IN <<MinOf(ps, ps[1]), MaxOf(es, es[1])>>

(* deleting: the nodes that go, where a context of which all children go    *)
(* goes itself                                                              *)
RECURSIVE Collapse(_, _)
Collapse(T, S) ==
    LET more == {i \in 1..N(T) : IsCtx(T, i) /\ i \notin S /\ \A k \in 1..N(T) : T.par[k] = i => k \in S}
    IN IF more = {} THEN S ELSE Collapse(T, S \cup more)
Gone(T, ns) == LET sel == {ns[k] : k \in 1..Len(ns)}
                   S == IF 0 \in sel THEN {i \in 1..N(T) : T.par[i] = 0} ELSE sel
               IN Collapse(T, S \cup {i \in 1..N(T) : \E a \in S : IsAncestor(T, a, i)})
(* number of nodes deleted: only the topmost ones count                     *)
GoneCount(T, ns) == Cardinality({i \in Gone(T, ns) : T.par[i] \notin Gone(T, ns)})
Without(T, ns) == LET G == Gone(T, ns) IN
    Concat([k \in 1..N(T) |-> IF k \in G THEN <<>> ELSE <<T.fl[k]>>])
============================================================================
