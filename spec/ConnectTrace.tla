---------------------------- MODULE ConnectTrace ---------------------------
(* Two transformers and two tree builders. Trace: [lang, Ms, ev]; line:     *)
(* [op: connect, disconnect, root, edit, b, k: builder and transformer,     *)
(* root, text: the new ones, log: events of the transformers <<k, name, b,  *)
(* result>>, res: results per builder per transformer, sub: results of      *)
(* nested contexts <<number of the node, result>> for b and k].             *)
EXTENDS Transforms, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Langs == Data.langs
VARIABLES t, l, bad,
    B,      \* per builder: [root, text]
    con,    \* connected pairs <<b, k>>
    res     \* per builder per transformer: the result
vars == <<t, l, bad, B, con, res>>
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ B = <<>> \o [b \in 1..2 |-> [root |-> <<1, <<-1>>>>, text |-> <<>>]]
        /\ con = {} /\ res = << <<<<>>, <<>>>>, <<<<>>, <<>>>> >>
FlatOf(tr, bb) == IF bb.root[1] = 0 \/ bb.text = <<>> THEN <<>> ELSE FlatTree(Lex(Langs[tr.lang], bb.root, bb.text).out)
(* the subtree of node i, as a tree of its own                              *)
RECURSIVE SubEnd(_, _, _)
SubEnd(fl, i, j) == IF j < Len(fl) /\ fl[j + 1][1] > fl[i][1] THEN SubEnd(fl, i, j + 1) ELSE j
SubTree(fl, i) == LET e == SubEnd(fl, i, i) IN
                  <<>> \o [j \in 1..(e - i) |-> [fl[i + j] EXCEPT ![1] = @ - fl[i][1]]]
Next ==
    /\ bad = "" /\ l < Len(Traces[t].ev)
    /\ LET tr == Traces[t]
           ev == tr.ev[l + 1]
           updates == ev.op \in {"root", "edit"}
           nb == CASE ev.op = "root" -> [B[ev.b] EXCEPT !.root = ev.root[1]]
                   [] ev.op = "edit" -> [B[ev.b] EXCEPT !.text = ev.text]
                   [] OTHER -> B[ev.b]
           fl == FlatOf(tr, nb)
           R(k) == Structure(fl, nb.root, tr.Ms[k])
           live == {k \in 1..2 : <<ev.b, k>> \in con}
           nres == IF ~ updates THEN res
                   ELSE [res EXCEPT ![ev.b] = <<>> \o [k \in 1..2 |-> IF k \in live THEN R(k) ELSE @[k]]]
           logof(k) == SelectSeq(ev.log, LAMBDA x : x[1] = k)
           wantlog(k) == IF updates /\ k \in live
                         THEN << <<k, "started", ev.b, <<>>>>, <<k, "updated", ev.b, R(k)>>, <<k, "finished", ev.b, <<>>>> >>
                         ELSE <<>>
           v == IF ev.exc # "" THEN "Exception"
                ELSE IF ev.res # nres THEN "Result"
                ELSE IF \E k \in 1..2 : logof(k) # wantlog(k) THEN "Events"
                ELSE IF \E i \in 1..Len(ev.sub) :
                           LET s == ev.sub[i]
                               n == fl[s[1]]
                           IN s[2] # Structure(SubTree(fl, s[1]), <<n[3], n[4]>>, tr.Ms[ev.k])
                     THEN "Intermediate" ELSE ""
       IN /\ bad' = v
          /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, ev.op, ev.b, nres, IF ev.exc # "" THEN ev.exc ELSE "">>)
          /\ B' = [B EXCEPT ![ev.b] = nb]
          /\ res' = nres
          /\ con' = CASE ev.op = "connect" -> con \cup {<<ev.b, ev.k>>}
                      [] ev.op = "disconnect" -> con \ {<<ev.b, ev.k>>}
                      [] OTHER -> con
    /\ l' = l + 1 /\ t' = t
============================================================================
