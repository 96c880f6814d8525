---------------------------- MODULE WorkerTrace ----------------------------
(* Judges what was seen of a worker (or document): requests, callbacks and  *)
(* events, while the text, the root lexicon and the transformer change.     *)
(* Trace: [lang, root, Ms: methods per transformer, ncb, ev]. Lines, in     *)
(* the order in which they happened (changes are recorded before they are   *)
(* made):                                                                   *)
(*  update [ss, root]; made: the update call returned;                      *)
(*  xf [m]; xmade: that call returned; idle: the work is done;              *)
(*  reg [cb]: about to request with a callback;                             *)
(*  get [cb, wait, busy (known), ret, tree]; getx [cb, wait, res]: res <<>> is None;      *)
(*  cb [cb, x, tree, res, arg]; event [name, tree]; exc                     *)
EXTENDS Transforms, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Langs == Data.langs
On(c) == \E i \in 1..Len(Data.clauses) : Data.clauses[i] = c
VARIABLES t, l, bad, text, root,
          hist,   \* the trees the texts had, one for every change
          m, xn,  \* the transformer, number of transformer changes
          idle, cb, runs,
          made,   \* number of changes of which the call returned
          xmade   \* the same for changes of the transformer
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ text = <<>> /\ root = Traces[t].root /\ hist = <<<<>>>>
        /\ m = Traces[t].m /\ xn = 0 /\ idle = TRUE
        /\ cb = [i \in 1..Traces[t].ncb |-> [st |-> "no", ver |-> 0, xn |-> 0]]
        /\ runs = <<>> /\ made = 1 /\ xmade = 0
tr == Traces[t]
Fresh(rt, x) == IF rt[1] = 0 THEN <<>> ELSE FlatTree(Lex(Langs[tr.lang], rt, x).out)
TextAfter(x, ss) ==
    LET F[i \in 0..Len(ss)] == IF i = 0 THEN x ELSE ApplyBatch(F[i-1], ss[i]) IN F[Len(ss)]
Cur == hist[Len(hist)]
Since(v, tree) == \E k \in v..Len(hist) : hist[k] = tree
Result == IF m = 0 THEN <<>> ELSE Structure(Cur, root, tr.Ms[m])
(* another thread asks while a change is being made                         *)
Changing == ~ Data.nested /\ (made < Len(hist) \/ xmade < xn)
(* what must become of the callback of a request                            *)
Fate(ev) == IF idle THEN "never"
            ELSE IF ev.op = "get" THEN IF ~ ev.ret \/ ev.busy THEN "must" ELSE IF ev.wait THEN "may" ELSE "never"
            ELSE IF Changing THEN "may"
            ELSE IF ev.busy THEN "must"
            ELSE IF m = 0 \/ (ev.res # <<>> /\ ~ ev.wait) THEN "never"
            ELSE IF ev.wait \/ Result = <<>> THEN "may" ELSE "must"
Early(ev) == ev.op \in {"get", "getx"} /\ ev.cb # 0 /\ cb[ev.cb].st = "done" /\ Fate(ev) = "never"

(* the runs of the process: 1 started, 2 tree updated, 3 tree finished; a   *)
(* run may be nested in another when a handler starts one                   *)
RECURSIVE DropDone(_)
DropDone(rs) == IF rs # <<>> /\ rs[Len(rs)].st >= 3 THEN DropDone(SubSeq(rs, 1, Len(rs) - 1)) ELSE rs
NextRuns(name) ==
    LET rs == DropDone(runs)
        n == Len(rs)
        top == IF n = 0 THEN 0 ELSE rs[n].st
    IN CASE name = "started" -> IF ~ Data.nested /\ n # 0 THEN <<>>
                                ELSE Append(IF Data.nested THEN runs ELSE rs, [st |-> 1, ver |-> made])
         [] name = "tree_updated" -> IF top # 1 THEN <<>> ELSE [rs EXCEPT ![n].st = 2]
         [] name = "tree_finished" -> IF top # 2 THEN <<>> ELSE [rs EXCEPT ![n].st = 3]
         [] OTHER -> IF runs = <<>> \/ runs[Len(runs)].st # 3 THEN <<>>
                     ELSE [runs EXCEPT ![Len(runs)].st = 4]
RunVer == LET rs == DropDone(runs) IN IF rs = <<>> THEN 1 ELSE rs[Len(rs)].ver

Verdict(ev) ==
    CASE ev.op = "exc" -> <<"Exception", ev.name, "">>
      [] Early(ev) -> <<"CallbackNotExpected", "", "">>
      [] ev.op = "get" /\ On("Tree") ->
            IF ~ ev.ret THEN IF ev.wait THEN <<"NoTreeAfterWait", "", "">>
                             ELSE IF idle THEN <<"NoTreeWhenIdle", "", "">> ELSE <<"", "", "">>
            ELSE IF IF Changing THEN ~ Since(made, ev.tree) ELSE ev.tree # Cur THEN <<"StaleTree", ev.tree, Cur>> ELSE <<"", "", "">>
      [] ev.op = "getx" /\ On("Xform") ->
            IF (ev.res # <<>> \/ ev.wait \/ idle) /\ ~ Changing
            THEN IF ev.res # Result THEN <<"WrongResult", ev.res, Result>> ELSE <<"", "", "">>
            ELSE <<"", "", "">>
      [] ev.op = "cb" /\ On(IF ev.x THEN "Xform" ELSE "Tree") ->
            LET c == cb[ev.cb] IN
            IF c.st \notin {"must", "may"} THEN <<"CallbackNotExpected", c.st, "">>
            ELSE IF ~ ev.arg THEN <<"CallbackArgument", "", "">>
            ELSE IF ~ Since(c.ver, ev.tree) THEN <<"CallbackTooEarly", ev.tree, Cur>>
            ELSE IF ev.x /\ c.ver = Len(hist) /\ c.xn = xn /\ ~ Changing /\ ev.res # Result THEN <<"CallbackResult", ev.res, Result>>
            ELSE <<"", "", "">>
      [] ev.op = "event" /\ On("Tree") ->
            IF NextRuns(ev.name) = <<>> THEN <<"EventOrder", ev.name, runs>>
            ELSE IF ev.name \in {"tree_updated", "tree_finished"} /\ ~ Since(RunVer, ev.tree) THEN <<"EventTooEarly", ev.tree, Cur>>
            ELSE <<"", "", "">>
      [] ev.op = "idle" ->
            IF \E i \in 1..tr.ncb : cb[i].st = "must"
            THEN IF On("Tree") THEN <<"CallbackLost", {i \in 1..tr.ncb : cb[i].st = "must"}, "">> ELSE <<"", "", "">>
            ELSE IF On("Tree") /\ DropDone(runs) # <<>> THEN <<"RunNotFinished", runs, "">>
            ELSE <<"", "", "">>
      [] OTHER -> <<"", "", "">>

Next == /\ bad = "" /\ l < Len(tr.ev)
        /\ LET ev == tr.ev[l + 1]
               v == Verdict(ev)
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], v[3]>>)
              /\ IF ev.op = "update"
                 THEN LET x == TextAfter(text, ev.ss)
                          rt == IF ev.root = <<>> THEN root ELSE ev.root
                      IN text' = x /\ root' = rt /\ hist' = Append(hist, Fresh(rt, x))
                 ELSE UNCHANGED <<text, root, hist>>
              /\ m' = IF ev.op = "xf" THEN ev.m ELSE m
              /\ xn' = IF ev.op = "xf" THEN xn + 1 ELSE xn
              /\ idle' = (ev.op = "idle" \/ (idle /\ ev.op \in {"made", "xmade", "reg", "get", "getx", "cb"}))
              /\ cb' = CASE ev.op \in {"get", "getx"} /\ ev.cb # 0 ->
                                IF cb[ev.cb].st = "done" THEN cb ELSE [cb EXCEPT ![ev.cb].st = Fate(ev)]
                         [] ev.op = "reg" -> [cb EXCEPT ![ev.cb] = [st |-> IF idle THEN "never" ELSE "may", ver |-> IF Changing THEN made ELSE Len(hist), xn |-> xn]]
                         [] ev.op = "cb" -> [cb EXCEPT ![ev.cb].st = "done"]
                         [] OTHER -> cb
              /\ made' = IF ev.op = "made" THEN Len(hist) ELSE made
              /\ xmade' = IF ev.op = "xmade" THEN xn ELSE xmade
              /\ runs' = IF ev.op = "event" THEN NextRuns(ev.name) ELSE IF ev.op = "idle" THEN <<>> ELSE runs
        /\ l' = l + 1 /\ t' = t
============================================================================
