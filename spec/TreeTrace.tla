----------------------------- MODULE TreeTrace -----------------------------
(* Judges a tree that is kept up-to-date while the text is edited.          *)
(* Trace: [lang, root, text, ev]; lang 0: not a generated language, then    *)
(* every line carries the events of a fresh run of the lexer (the language  *)
(* is an uninterpreted function from texts to events).                      *)
(* Line: [ss: successive batches of sorted changes, root: new root lexicon  *)
(* or <<>>, tree, open, same, upd, fin, …]; fin: what was seen when         *)
(* "finished" was emitted: [k: batches made so far, root, tree].            *)
EXTENDS Tree, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Langs == Data.langs
On(c) == \E i \in 1..Len(Data.clauses) : Data.clauses[i] = c
VARIABLES t, l, text, root, tree, bad

Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ text = Traces[t].text /\ root = Traces[t].root
        /\ tree = <<>>

(* [out, open] of lexing x from scratch                                     *)
Fresh(tr, ev, rt, x) ==
    IF rt[1] = 0 THEN [out |-> <<>>, open |-> <<>>]
    ELSE IF tr.lang = 0 THEN [out |-> ev.evs, open |-> ev.fopen]
    ELSE LET r == Lex(Langs[tr.lang], rt, x) IN [out |-> r.out, open |-> Tail(r.stack)]

TextAfter(x, ss, k) ==
    LET F[i \in 0..k] == IF i = 0 THEN x ELSE ApplyBatch(F[i-1], ss[i]) IN F[k]

(* parents by depth: the last node before i with a lower depth              *)
ParentsOf(fl) == [i \in 1..Len(fl) |->
    LET S == {j \in 1..(i-1) : fl[j][1] < fl[i][1]} IN
    IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j >= k]

(* the updated range: tokens (with their ancestors) before the start are    *)
(* the old ones, tokens from the end on are the old ones, shifted           *)
RECURSIVE PathOf(_, _, _)
PathOf(fl, i, d) == \* the ancestor contexts of node i as lexicons
    IF i = 0 \/ d = 0 THEN <<>>
    ELSE IF ~ IsTok(fl[i]) /\ fl[i][1] = d THEN Append(PathOf(fl, i - 1, d - 1), <<fl[i][3], fl[i][4]>>)
    ELSE PathOf(fl, i - 1, d)
TokPaths(fl) == \* tokens as <<pos, text, action, group, path>>
    LET F[i \in 0..Len(fl)] == \* path stack by depth
            IF i = 0 THEN [st |-> <<>>, out |-> <<>>]
            ELSE LET f == F[i-1] n == fl[i] st == SubSeq(f.st, 1, n[1] - 1) IN
                 IF IsTok(n) THEN [st |-> st, out |-> Append(f.out, <<n[3], n[4], n[5], n[6], st>>)]
                 ELSE [st |-> Append(st, <<n[3], n[4]>>), out |-> f.out]
    IN F[Len(fl)].out
Shift(toks, d) == [i \in 1..Len(toks) |-> <<toks[i][1] + d, toks[i][2], toks[i][3], toks[i][4], toks[i][5]>>]
EndOf(x) == x[1] + Len(x[2])
(* The range covers the edited text, lies in the text, and outside of it    *)
(* the tokens are the old ones (shifted behind it).                         *)
RangeOk(old, new, oldlen, newlen, s, e) ==
    LET d == newlen - oldlen
        a == TokPaths(old)  b == TokPaths(new)
        before(ts) == SelectSeq(ts, LAMBDA x : EndOf(x) <= s)
        behind(ts) == SelectSeq(ts, LAMBDA x : x[1] >= e)
    IN /\ 0 <= s /\ s <= e /\ e <= newlen
       /\ before(a) = before(b)
       /\ behind(Shift(a, d)) = behind(b)

(* A preview during the build is a part of the tree it leads to: some       *)
(* successive tokens, from before the start on, that go far enough.         *)
PeekOk(p, want, rt) ==
    LET a == TokPaths(want)  b == TokPaths(p.tree) IN
    /\ p.lex = rt /\ b # <<>> /\ NoEmptyContext(p.tree) /\ p.par = ParentsOf(p.tree)
    /\ \E i \in 1..Len(a) : /\ a[i] = b[1] /\ i + Len(b) - 1 <= Len(a)
                            /\ \A j \in 1..Len(b) : a[i + j - 1] = b[j]
                            /\ i = 1 \/ EndOf(a[i-1]) <= p.start
    /\ EndOf(b[Len(b)]) >= p.start + p.n

Judge(tr, ev, x, rt, new) ==
    LET f == Fresh(tr, ev, rt, x)
        want == FlatTree(f.out)
    IN IF ev.exc # "" THEN <<"Exception", ev.exc, "">>
       ELSE IF On("Tree") /\ ev.tree # want
            THEN LET S == {i \in 1..Max2(Len(want), Len(ev.tree)) : i > Len(want) \/ i > Len(ev.tree) \/ want[i] # ev.tree[i]}
                     i == CHOOSE j \in S : \A k \in S : j <= k
                 IN <<"Tree", IF i > Len(ev.tree) THEN "none" ELSE ev.tree[i], IF i > Len(want) THEN "none" ELSE want[i]>>
       ELSE IF On("Open") /\ ev.open # f.open THEN <<"OpenLexicons", ev.open, f.open>>
       ELSE IF On("Finished") /\ \E i \in 1..Len(ev.fin) :
                 ev.fin[i].tree # FlatTree(Fresh(tr, ev, ev.fin[i].root, TextAfter(text, ev.ss, ev.fin[i].k)).out)
            THEN <<"FinishedTooEarly", ev.fin, "">>
       ELSE IF On("Finished") /\ ev.fin = <<>> /\ new THEN <<"NotFinished", "", "">>
       ELSE IF On("Root") /\ ~ (ev.same /\ ev.rootlex = rt) THEN <<"RootContext", ev.rootlex, rt>>
       ELSE IF On("WellFormed") /\ ~ TokenTextOk(ev.tree, x) THEN <<"TokenText", ev.tree, "">>
       ELSE IF On("WellFormed") /\ ~ AscendOk(ev.tree) THEN <<"TokensAscend", ev.tree, "">>
       ELSE IF On("WellFormed") /\ ~ NoEmptyContext(ev.tree) THEN <<"EmptyContext", ev.tree, "">>
       ELSE IF On("WellFormed") /\ ~ GroupsOk(ev.tree) THEN <<"Groups", ev.tree, "">>
       ELSE IF On("Parents") /\ ev.par # ParentsOf(ev.tree) THEN <<"Parents", ev.par, ev.tree>>
       ELSE IF On("Copy") /\ (ev.copy # ev.tree \/ ev.cpar # ParentsOf(ev.tree)) THEN <<"Copy", ev.copy, ev.tree>>
       ELSE IF On("Copy") /\ ev.prevcopy # tree THEN <<"CopyIndependent", ev.prevcopy, tree>>
       ELSE IF (On("Range") \/ On("RangeUpd")) /\ ev.upd # <<>> /\ ~ RangeOk(tree, ev.tree, Len(text), Len(x), ev.upd[1], ev.upd[2])
            THEN <<"UpdatedRange", ev.upd, tree>>
       ELSE IF On("Range") /\ (IF new THEN ev.nupd # 1 ELSE ev.nupd > 1) THEN <<"UpdateEvents", ev.nupd, "">>
       ELSE IF On("Peek") /\ \E i \in 1..Len(ev.peeks) : ~ PeekOk(ev.peeks[i], want, rt) THEN <<"Peek", ev.peeks, want>>
       ELSE <<"", "", "">>

Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l + 1]
               x == TextAfter(text, ev.ss, Len(ev.ss))
               rt == IF ev.root = <<>> THEN root ELSE ev.root
               v == Judge(Traces[t], ev, x, rt, x # text \/ rt # root)
           IN /\ text' = x /\ root' = rt /\ tree' = ev.tree
              /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], v[3]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
