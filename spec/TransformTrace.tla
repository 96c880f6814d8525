--------------------------- MODULE TransformTrace --------------------------
(* Judges the calls of transform methods that were recorded while a text,   *)
(* or its tree, was transformed. Trace: [lang, root, ev]; line: [text, pos, M, *)
(* tree: calls, txt: calls, rtree, rtext: number of the call that gave the  *)
(* result (0: None), asks: questions about the items of a call, exc].                                                  *)
EXTENDS Transforms, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Langs == Data.langs
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""

FirstDiff(a, b) == LET S == {i \in 1..Max2(Len(a), Len(b)) : i > Len(a) \/ i > Len(b) \/ a[i] # b[i]}
                   IN CHOOSE i \in S : \A j \in S : i <= j
(* a question about the items of a call                                     *)
Asked(want, q) ==
    LET items == want[q.k].items IN
    CASE q.op = "tokens" -> q.r = Where(items, IsTokItem)
      [] q.op = "items" -> q.r = Where(items, LAMBDA x : ~ IsTokItem(x))
      [] q.op = "grouped" -> q.r = Grouped(items, q.names)
      [] q.op = "peek" -> q.r = Peek(items, q.i, q.vals)
At(a, i) == IF i <= Len(a) THEN a[i] ELSE "none"
Judge(tr, ev) ==
    IF ev.exc # "" THEN <<"Exception", ev.exc, "">>
    ELSE LET fl == IF tr.lang = 0 THEN FlatTree(ev.evs)
                   ELSE IF tr.root[1] = 0 THEN <<>> ELSE FlatTree(Run(Langs[tr.lang], ev.text, LexInit(<<tr.root>>, ev.pos)).out)
             want == Calls(fl, tr.root, ev.M)
    IN IF ev.tree # want
       THEN LET i == FirstDiff(ev.tree, want) IN <<"TransformTree", At(ev.tree, i), At(want, i)>>
       ELSE IF ev.txt # want
       THEN LET i == FirstDiff(ev.txt, want) IN <<"TransformText", At(ev.txt, i), At(want, i)>>
       ELSE IF ev.rtree # Len(want) \/ ev.rtext # Len(want) THEN <<"Result", ev.rtree, ev.rtext>>
       ELSE IF \E i \in 1..Len(ev.asks) : ~ Asked(want, ev.asks[i])
       THEN LET i == CHOOSE i \in 1..Len(ev.asks) : ~ Asked(want, ev.asks[i]) IN <<"Items", ev.asks[i], want[ev.asks[i].k].items>>
       ELSE <<"", "", "">>

Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET v == Judge(Traces[t], Traces[t].ev[l + 1])
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], v[3]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
