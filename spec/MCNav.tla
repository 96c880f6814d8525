------------------------------- MODULE MCNav -------------------------------
(* Laws of navigation on all small trees: what is said about the list of    *)
(* nodes agrees with what is said about parents and children.               *)
EXTENDS Nav, TLC
CONSTANTS MaxNodes
VARIABLES fl, pos
(* grow a well-formed tree: a token at a depth where it may come; contexts  *)
(* get their first token at once; tokens are one or two long with gaps      *)
Init == fl = <<>> /\ pos = 0
D == IF fl = <<>> THEN 1 ELSE fl[Len(fl)][1]
Tok(d, p, n) == <<d, "T", p, [i \in 1..n |-> 97], 1, -99>>
Next == /\ Len(fl) < MaxNodes
        /\ \E d \in 1..D, up \in 0..2, gap \in 0..1, n \in 1..2 :
             /\ Len(fl) + 1 + up <= MaxNodes
             /\ fl' = fl \o [i \in 1..up |-> <<d + i - 1, "C", i, <<>>>>] \o <<Tok(d + up, pos + gap, n)>>
             /\ pos' = pos + gap + n
T == [fl |-> fl, par |-> ParOf(fl)]
Nodes == 1..Len(fl)
Ctx == {i \in 0..Len(fl) : ~ IsTk(T, i)}
Laws ==
    /\ NoEmptyContext(fl)
    /\ \A i \in Nodes : /\ Len(LeftSibs(T, i)) = Index(T, i)
                        /\ Kids(T, T.par[i]) = Rev(LeftSibs(T, i)) \o <<i>> \o RightSibs(T, i)
                        /\ Len(Ancestors(T, i)) = Depth(T, i)
                        /\ IsTk(T, i) => LET x == First(Forward(T, i, NoNode)) IN
                              x # NoNode => First(Backward(T, x, NoNode)) = i
                        /\ Rev(Backward(T, i, NoNode)) \o TokensOf(T, i) \o Forward(T, i, NoNode) = TokensOf(T, 0)
                        /\ Trail(T, 0, i)[Depth(T, i)] = Index(T, i)
    /\ \A c \in Ctx : \A p \in 0..(pos + 1) :
         /\ LET x == AtOrRight(T, c, p) y == Before(T, c, p) IN
            x # NoNode /\ y # NoNode => First(Forward(T, y, NoNode)) = x
         /\ LET x == After(T, c, p) y == AtOrLeft(T, c, p) IN
            x # NoNode /\ y # NoNode => First(Forward(T, y, NoNode)) = x
         /\ \A e \in (p + 1)..(pos + 1) :
              LET s == RangeTokens(T, c, p, e) IN
              s # <<>> => s[1] = AtOrRight(T, c, p) /\ s[Len(s)] = AtOrLeft(T, c, e)
    /\ \A i, j \in Nodes : LET c == Common(T, i, j) IN
         /\ c = Common(T, j, i)
         /\ \A d \in Ctx : (IsAncestor(T, d, i) /\ IsAncestor(T, d, j)) => d = c \/ IsAncestor(T, d, c)
============================================================================
