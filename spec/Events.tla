------------------------------- MODULE Events -------------------------------
(* Connections and emissions of an observable. A connection is              *)
(* [id, ev, f, once, self, prio]; conns is the sequence of connections in   *)
(* calling order. An emission is [ev, arg, snap, ctx]: the connections that *)
(* are still to be called, and the contexts that were entered.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Has(conns, ev, f) == \E i \in 1..Len(conns) : conns[i].ev = ev /\ conns[i].f = f
(* connecting again has no effect; behind those with the same priority      *)
Connect(conns, c) ==
    IF Has(conns, c.ev, c.f) THEN conns
    ELSE LET P(x) == x.prio <= c.prio
         IN SelectSeq(conns, P) \o <<c>> \o SelectSeq(conns, LAMBDA x : ~ P(x))
Disconnect(conns, ev, f) == SelectSeq(conns, LAMBDA c : ~ (c.ev = ev /\ c.f = f))
DisconnectAll(conns, ev) == SelectSeq(conns, LAMBDA c : c.ev # ev)
For(conns, ev) == SelectSeq(conns, LAMBDA c : c.ev = ev)
Live(conns, dead, id) == \E i \in 1..Len(conns) : conns[i].id = id /\ conns[i].f \notin dead
Emission(conns, ev, arg) == [ev |-> ev, arg |-> arg, snap |-> For(conns, ev), ctx |-> <<>>]
(* index in snap of the next handler that must be called, 0: none           *)
NextCall(em, conns, dead) ==
    LET S == {i \in 1..Len(em.snap) : Live(conns, dead, em.snap[i].id)}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* a connection that is replaced by a new one of the same handler during    *)
(* the emission may still be called or not                                  *)
MayCall(em, conns, dead, f) ==
    LET k == NextCall(em, conns, dead)
        S == {i \in 1..(IF k = 0 THEN Len(em.snap) ELSE k - 1) : em.snap[i].f = f}
    IN IF S # {} /\ Has(conns, em.ev, f) THEN CHOOSE i \in S : TRUE ELSE 0
AfterCall(em, i) == [em EXCEPT !.snap = SubSeq(@, i + 1, Len(@))]
ConnsAfterCall(conns, c) == IF c.once THEN Disconnect(conns, c.ev, c.f) ELSE conns
============================================================================
