--------------------------------- MODULE Nav --------------------------------
(* Navigation in a tree, defined on the list of its nodes in document order *)
(* (Tree): node k is the k-th of the list, 0 the root. NoNode is -1.        *)
EXTENDS Tree
NoNode == -1

(* parent of every node, and the last node of every subtree                 *)
RECURSIVE ParStep(_, _, _, _)
ParStep(fl, i, st, acc) ==
    IF i > Len(fl) THEN acc
    ELSE LET s == SubSeq(st, 1, fl[i][1])
         IN ParStep(fl, i + 1, Append(s, i), Append(acc, s[Len(s)]))
ParOf(fl) == ParStep(fl, 1, <<0>>, <<>>)

(* T: [fl, par]                                                             *)
N(T) == Len(T.fl)
Idx(T) == [k \in 1..N(T) |-> k]
Depth(T, i) == IF i = 0 THEN 0 ELSE T.fl[i][1]
IsTk(T, i) == i > 0 /\ T.fl[i][2] = "T"
RECURSIVE LastFrom(_, _, _)
LastFrom(T, d, k) == IF k >= N(T) \/ T.fl[k + 1][1] <= d THEN k ELSE LastFrom(T, d, k + 1)
LastOf(T, i) == LastFrom(T, Depth(T, i), i)
(* sequences of nodes                                                       *)
Kids(T, i) == SelectSeq(SubSeq(Idx(T), i + 1, LastOf(T, i)), LAMBDA k : T.par[k] = i)
TokensIn(T, a, b) == SelectSeq(SubSeq(Idx(T), Max2(a, 1), b), LAMBDA k : IsTk(T, k))
TokensOf(T, i) == IF IsTk(T, i) THEN <<i>> ELSE TokensIn(T, i + 1, LastOf(T, i))
First(s) == IF s = <<>> THEN NoNode ELSE s[1]
Final(s) == IF s = <<>> THEN NoNode ELSE s[Len(s)]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
TPos(T, k) == T.fl[k][3]
TEnd(T, k) == T.fl[k][3] + Len(T.fl[k][4])
Pos(T, i) == LET s == TokensOf(T, i) IN IF s = <<>> THEN 0 ELSE TPos(T, s[1])
End(T, i) == LET s == TokensOf(T, i) IN IF s = <<>> THEN 0 ELSE TEnd(T, s[Len(s)])
RECURSIVE Ancestors(_, _)
Ancestors(T, i) == IF i = 0 THEN <<>> ELSE <<T.par[i]>> \o Ancestors(T, T.par[i])
AncestorsUpto(T, i, u) == LET a == Ancestors(T, i)
                              S == {k \in 1..Len(a) : a[k] = u}
                          IN IF S = {} THEN a ELSE SubSeq(a, 1, CHOOSE k \in S : TRUE)
IsAncestor(T, a, i) == \E k \in 1..Len(Ancestors(T, i)) : Ancestors(T, i)[k] = a
IndexIn(s, x) == (CHOOSE k \in 1..Len(s) : s[k] = x) - 1
Index(T, i) == IndexIn(Kids(T, T.par[i]), i)
LeftSibs(T, i) == LET k == Kids(T, T.par[i]) IN Rev(SubSeq(k, 1, IndexIn(k, i)))
RightSibs(T, i) == LET k == Kids(T, T.par[i]) IN SubSeq(k, IndexIn(k, i) + 2, Len(k))
Forward(T, i, u) == TokensIn(T, LastOf(T, i) + 1, IF u = NoNode THEN N(T) ELSE LastOf(T, u))
Backward(T, i, u) == Rev(TokensIn(T, IF u = NoNode THEN 1 ELSE u + 1, i - 1))
(* the trail of indices from context c to node i                            *)
RECURSIVE Trail(_, _, _)
Trail(T, c, i) == IF i = c THEN <<>> ELSE Append(Trail(T, c, T.par[i]), Index(T, i))
Family(T, i) == IF IsTk(T, i) THEN Ancestors(T, i) ELSE <<i>> \o Ancestors(T, i)
Common(T, i, j) == LET a == Family(T, i) b == Family(T, j)
                       s == SelectSeq(a, LAMBDA x : \E k \in 1..Len(b) : b[k] = x)
                   IN s[1]
Height(T, c) == LET S == {Depth(T, k) - Depth(T, c) : k \in (c + 1)..LastOf(T, c)}
                IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
(* finding by position, from context c                                      *)
AtOrRight(T, c, p) == First(SelectSeq(TokensOf(T, c), LAMBDA k : TEnd(T, k) > p))
AtOrLeft(T, c, p) == Final(SelectSeq(TokensOf(T, c), LAMBDA k : TPos(T, k) < p))
After(T, c, p) == First(SelectSeq(TokensOf(T, c), LAMBDA k : TPos(T, k) >= p))
Before(T, c, p) == Final(SelectSeq(TokensOf(T, c), LAMBDA k : TEnd(T, k) <= p))
ContextAt(T, c, p) ==
    LET s == SelectSeq(SubSeq(Idx(T), c + 1, LastOf(T, c)),
                       LAMBDA k : ~ IsTk(T, k) /\ Pos(T, k) <= p /\ p < End(T, k))
    IN IF s = <<>> THEN c ELSE s[Len(s)]
(* the tokens of a range; e is NoEnd for the end of the context             *)
NoEnd == -1000
RangeTokens(T, c, s, e) ==
    IF e # NoEnd /\ e <= s THEN <<>>
    ELSE SelectSeq(TokensOf(T, c), LAMBDA k : TEnd(T, k) > s /\ (e = NoEnd \/ TPos(T, k) < e))
Group(T, i) == LET k == Kids(T, T.par[i])
                   x == IndexIn(k, i) + 1
                   g == IF T.fl[i][6] < 0 THEN -T.fl[i][6] ELSE T.fl[i][6]
                   a == x - g
                   S == {j \in x..Len(k) : IsTk(T, k[j]) /\ T.fl[k[j]][6] < 0}
               IN SubSeq(k, a, CHOOSE j \in S : \A y \in S : j <= y)
(* removing a node removes the ancestors that become empty, but not the root *)
RECURSIVE Removed(_, _)
Removed(T, i) == IF T.par[i] # 0 /\ Len(Kids(T, T.par[i])) = 1 THEN Removed(T, T.par[i]) ELSE i
Remaining(T, i) == LET r == Removed(T, i)
                   IN SelectSeq(Idx(T), LAMBDA k : k < r \/ k > LastOf(T, r))
(* the nearest ancestor that is not empty, if there is one                  *)
NotEmpty(T, i) == LET r == Removed(T, i)
                  IN IF Remaining(T, i) = <<>> THEN NoNode ELSE T.par[r]
SameToken(T, i, j) == T.fl[i][4] = T.fl[j][4] /\ T.fl[i][5] = T.fl[j][5]
Path(T, i) == [k \in 1..Len(Ancestors(T, i)) |->
                 LET a == Ancestors(T, i)[k] IN IF a = 0 THEN <<0, <<>>>> ELSE <<T.fl[a][3], T.fl[a][4]>>]
B(x) == IF x THEN <<1>> ELSE <<0>>
(* documents: T.text is the text, blocks are separated by newlines (10)     *)
RECURSIVE BlockStart(_, _), BlockEnd(_, _)
BlockStart(x, p) == IF p = 0 \/ x[p] = 10 THEN p ELSE BlockStart(x, p - 1)
BlockEnd(x, p) == IF p = Len(x) \/ x[p + 1] = 10 THEN p ELSE BlockEnd(x, p + 1)
(* the tokens that Document.token(p) may return                             *)
DocToken(T, p) ==
    LET r == AtOrRight(T, 0, p)
        lf == Before(T, 0, p)
        bs == BlockStart(T.text, p)
        be == BlockEnd(T.text, p)
        rest == IF r # NoNode /\ TPos(T, r) <= be /\ TPos(T, r) < Len(T.text) THEN {r}
                ELSE {NoNode} \cup {k \in 1..N(T) : IsTk(T, k) /\ TPos(T, k) <= be /\ TEnd(T, k) > bs}
    IN IF r # NoNode /\ TPos(T, r) <= p THEN {r}
       ELSE IF lf # NoNode /\ TEnd(T, lf) = p
            THEN IF p > bs THEN {lf} ELSE {lf} \cup rest    \* a newline token of the previous block
       ELSE rest

(* the answer to a question [op, n, a, b] as a sequence of numbers          *)
Answer(T, q) ==
    LET n == q.n a == q.a b == q.b IN
    CASE q.op = "left_sibling" -> <<First(LeftSibs(T, n))>>
      [] q.op = "right_sibling" -> <<First(RightSibs(T, n))>>
      [] q.op = "left_siblings" -> LeftSibs(T, n)
      [] q.op = "right_siblings" -> RightSibs(T, n)
      [] q.op = "is_first" -> B(LeftSibs(T, n) = <<>>)
      [] q.op = "is_last" -> B(RightSibs(T, n) = <<>>)
      [] q.op = "parent_index" -> <<Index(T, n)>>
      [] q.op = "depth" -> <<Depth(T, n)>>
      [] q.op = "root" -> <<0>>
      [] q.op = "ancestors" -> AncestorsUpto(T, n, a)
      [] q.op = "is_ancestor_of" -> B(IsAncestor(T, n, a))
      [] q.op = "common_ancestor" -> <<Common(T, n, a)>>
      [] q.op = "next_token" -> <<First(Forward(T, n, NoNode))>>
      [] q.op = "previous_token" -> <<First(Backward(T, n, NoNode))>>
      [] q.op = "forward" -> Forward(T, n, a)
      [] q.op = "backward" -> Backward(T, n, a)
      [] q.op = "forward_including" -> <<n>> \o Forward(T, n, a)
      [] q.op = "backward_including" -> <<n>> \o Backward(T, n, a)
      [] q.op = "forward_until" -> IF a < n THEN <<>> ELSE TokensIn(T, n, a)
      [] q.op = "trails" -> IF a < n THEN <<NoNode>>
                            ELSE LET c == Common(T, n, a) IN <<c, -2>> \o Trail(T, c, n) \o <<-2>> \o Trail(T, c, a)
      [] q.op = "tokens" -> TokensOf(T, n)
      [] q.op = "rtokens" -> Rev(TokensOf(T, n))
      [] q.op = "first_token" -> <<First(TokensOf(T, n))>>
      [] q.op = "last_token" -> <<Final(TokensOf(T, n))>>
      [] q.op = "span" -> <<Pos(T, n), End(T, n)>>
      [] q.op = "height" -> <<Height(T, n)>>
      [] q.op = "find" -> LET k == Kids(T, n) s == SelectSeq(k, LAMBDA x : End(T, x) > a)
                          IN IF s = <<>> THEN <<-1>> ELSE <<IndexIn(k, s[1])>>
      [] q.op = "find_left" -> LET k == Kids(T, n) s == SelectSeq(k, LAMBDA x : Pos(T, x) < a)
                               IN IF s = <<>> THEN <<-1>> ELSE <<IndexIn(k, s[Len(s)])>>
      [] q.op = "find_context" -> <<ContextAt(T, n, a)>>
      [] q.op = "find_token" -> <<AtOrRight(T, n, a)>>
      [] q.op = "find_token_left" -> <<AtOrLeft(T, n, a)>>
      [] q.op = "find_token_trail" -> LET x == AtOrRight(T, n, a) IN IF x = NoNode THEN <<NoNode>> ELSE <<x>> \o Trail(T, n, x)
      [] q.op = "find_token_left_trail" -> LET x == AtOrLeft(T, n, a) IN IF x = NoNode THEN <<NoNode>> ELSE <<x>> \o Trail(T, n, x)
      [] q.op = "find_token_after" -> <<After(T, n, a)>>
      [] q.op = "find_token_before" -> <<Before(T, n, a)>>
      [] q.op = "range" -> RangeTokens(T, n, a, b)
      [] q.op = "range_span" -> LET s == RangeTokens(T, n, a, b) IN
                                IF s = <<>> THEN <<>> ELSE <<TPos(T, s[1]), TEnd(T, s[Len(s)])>>
      [] q.op = "group" -> Group(T, n)
      [] q.op = "group_ends" -> LET g == Group(T, n) IN <<g[1], g[Len(g)]>>
      [] q.op = "cursor_tokens" -> RangeTokens(T, 0, a, b)
      [] q.op = "block_tokens" -> RangeTokens(T, 0, BlockStart(T.text, a), BlockEnd(T.text, a))
      [] q.op = "delete" -> <<NotEmpty(T, n)>> \o Remaining(T, n)
      [] q.op = "same" -> B(n = a)
      [] q.op = "text_is" -> B(T.fl[n][4] = T.fl[a][4])
      [] q.op = "lexicon_is" -> B(T.fl[n][3] = T.fl[a][3])     \* whatever the argument
      [] q.op = "equals" -> B(SameToken(T, n, a) /\ Path(T, n) = Path(T, a))
      [] q.op = "state_matches" -> B(Path(T, n) = Path(T, a))
Accepts(T, q) == IF q.op = "doc_token" THEN Len(q.r) = 1 /\ q.r[1] \in DocToken(T, q.a)
                 ELSE q.r = Answer(T, q)
============================================================================
