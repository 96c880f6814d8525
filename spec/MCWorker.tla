----------------------------- MODULE MCWorker ------------------------------
(* Design model of the background worker: a main thread that changes the    *)
(* text, sets transformers and requests the tree or the transformed result, *)
(* and one background thread that runs the tree builder and the transformer *)
(* in stages. A text is its version number.                                 *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS MaxOps, Transformers   \* Transformers: a set of numbers > 0
VARIABLES ver, pending, busy, treeVer, ts, xs, req,     \* shared
          pc, my, bver, t, xver, th, again, intr,       \* background thread
          tf, res,                                      \* transformer set; result per transformer
          mpc, ops,                                     \* main thread
          cb, xcb, got, n                               \* callbacks waiting; how often called
vars == <<ver, pending, busy, treeVer, ts, xs, req, pc, my, bver, t, xver, th, again, intr, tf, res, mpc, ops, cb, xcb, got, n>>

Busy(s) == s \in {"build", "replace"}
Init == /\ ver = 0 /\ pending = FALSE /\ busy = FALSE /\ treeVer = 0 /\ ts = "idle" /\ xs = "idle" /\ req = 0
        /\ pc = "none" /\ my = 0 /\ bver = 0 /\ t = 0 /\ xver = 0 /\ th = FALSE /\ again = FALSE /\ intr = FALSE
        /\ tf = 0 /\ res = [x \in Transformers |-> 0]
        /\ mpc = "rest" /\ ops = 0 /\ cb = {} /\ xcb = {} /\ got = [i \in 1..MaxOps |-> 0] /\ n = 0

(* ---- main thread -------------------------------------------------------- *)
(* start(): a new request; only one thread at a time                         *)
Start == /\ req' = req + 1 /\ ts' = "build"
         /\ xs' = IF tf' # 0 THEN "build" ELSE xs
         /\ IF th THEN again' = TRUE /\ intr' = (tf' # 0 \/ intr) /\ UNCHANGED <<th, pc>>
                  ELSE th' = TRUE /\ pc' = "begin" /\ UNCHANGED <<again, intr>>
NoStart == UNCHANGED <<req, ts, xs, again, intr, th, pc>>
Bg == <<my, bver, t, xver>>

AddChange == /\ mpc = "rest" /\ ops < MaxOps /\ ops' = ops + 1
             /\ ver' = ver + 1 /\ pending' = TRUE /\ mpc' = "upd"
             /\ NoStart /\ UNCHANGED <<busy, treeVer, tf, res, cb, xcb, got, n>> /\ UNCHANGED Bg
Update == /\ mpc = "upd" /\ mpc' = "rest"
          /\ IF busy THEN NoStart /\ busy' = busy ELSE busy' = TRUE /\ tf' = tf /\ Start
          /\ UNCHANGED <<ver, pending, treeVer, tf, res, ops, cb, xcb, got, n>> /\ UNCHANGED Bg
SetTransformer ==
    /\ mpc = "rest" /\ ops < MaxOps /\ ops' = ops + 1
    /\ \E x \in Transformers \cup {0} : x # tf /\ tf' = x
    /\ IF Busy(xs) THEN NoStart ELSE Start
    /\ UNCHANGED <<ver, pending, busy, treeVer, res, mpc, cb, xcb, got, n>> /\ UNCHANGED Bg
(* a request with a callback that cannot be honoured now                    *)
Ask == /\ mpc = "rest" /\ ops < MaxOps /\ ops' = ops + 1
       /\ \/ Busy(ts) /\ n' = n + 1 /\ cb' = cb \cup {<<n + 1, ver>>} /\ UNCHANGED xcb
          \/ Busy(xs) /\ tf # 0 /\ n' = n + 1 /\ xcb' = xcb \cup {<<n + 1, ver>>} /\ UNCHANGED cb
       /\ NoStart /\ UNCHANGED <<ver, pending, busy, treeVer, tf, res, mpc, got>> /\ UNCHANGED Bg
(* a request that waits                                                     *)
Wait == /\ mpc = "rest" /\ ops < MaxOps /\ ops' = ops + 1
        /\ mpc' \in {"wtree", "wxform"}
        /\ NoStart /\ UNCHANGED <<ver, pending, busy, treeVer, tf, res, cb, xcb, got, n>> /\ UNCHANGED Bg
Waited == /\ \/ mpc = "wtree" /\ ~ Busy(ts)
             \/ mpc = "wxform" /\ ~ Busy(xs)
          /\ mpc' = "rest"
          /\ NoStart /\ UNCHANGED <<ver, pending, busy, treeVer, tf, res, ops, cb, xcb, got, n>> /\ UNCHANGED Bg
Main == AddChange \/ Update \/ SetTransformer \/ Ask \/ Wait \/ Waited

(* ---- background thread -------------------------------------------------- *)
Rest == UNCHANGED <<ver, req, th, again, tf, mpc, ops, n>>
SetTs(s) == ts' = IF my = req THEN s ELSE ts
SetXs(s) == xs' = IF my = req THEN s ELSE xs
Begin == /\ pc = "begin" /\ my' = req /\ pc' = "get"
         /\ Rest /\ UNCHANGED <<pending, busy, treeVer, ts, xs, bver, t, xver, intr, res, cb, xcb, got>>
Get == /\ pc = "get"
       /\ IF pending THEN pending' = FALSE /\ bver' = ver /\ pc' = "build" /\ busy' = busy
          ELSE busy' = FALSE /\ pc' = "done" /\ UNCHANGED <<pending, bver>>
       /\ Rest /\ UNCHANGED <<treeVer, ts, xs, my, t, xver, intr, res, cb, xcb, got>>
Build == /\ pc = "build"
         /\ IF pending THEN pending' = FALSE /\ bver' = ver /\ pc' = pc \* restarted with the new text
            ELSE pc' = "replace" /\ UNCHANGED <<pending, bver>>
         /\ SetTs("build")
         /\ Rest /\ UNCHANGED <<busy, treeVer, xs, my, t, xver, intr, res, cb, xcb, got>>
Replace == /\ pc = "replace" /\ SetTs("replace") /\ treeVer' = bver
           /\ intr' = (tf # 0 \/ intr) /\ pc' = "get"
           /\ Rest /\ UNCHANGED <<pending, busy, xs, my, bver, t, xver, res, cb, xcb, got>>
Done == /\ pc = "done" /\ SetTs("done") /\ pc' = "finish"
        /\ Rest /\ UNCHANGED <<pending, busy, treeVer, xs, my, bver, t, xver, intr, res, cb, xcb, got>>
Call(S) == got' = [i \in 1..MaxOps |-> got[i] + Cardinality({c \in S : c[1] = i})]
Finish == /\ pc = "finish" /\ SetTs("idle")
          /\ IF my = req THEN Call(cb) /\ cb' = {} /\ pc' = "xform" ELSE pc' = "end" /\ UNCHANGED <<cb, got>>
          /\ Rest /\ UNCHANGED <<pending, busy, treeVer, xs, my, bver, t, xver, intr, res, xcb>>
XStart == /\ pc = "xform" /\ t' = tf
          /\ IF tf = 0 THEN pc' = "xend" /\ SetXs("done") ELSE pc' = "xrun" /\ xs' = xs
          /\ Rest /\ UNCHANGED <<pending, busy, treeVer, ts, my, bver, xver, intr, res, cb, xcb, got>>
XRun == /\ pc = "xrun" /\ intr' = FALSE /\ xver' = treeVer /\ SetXs("build") /\ pc' = "xready"
        /\ Rest /\ UNCHANGED <<pending, busy, treeVer, ts, my, bver, t, res, cb, xcb, got>>
XReady == /\ pc = "xready" /\ SetXs("replace") /\ pc' = "xdone"
          /\ res' = IF intr THEN res ELSE [res EXCEPT ![t] = xver]
          /\ Rest /\ UNCHANGED <<pending, busy, treeVer, ts, my, bver, t, xver, intr, cb, xcb, got>>
XDone == /\ pc = "xdone"
         /\ IF t = tf \/ tf = 0 THEN SetXs("done") ELSE xs' = xs
         /\ IF t = tf \/ tf = 0 THEN pc' = "xend" /\ t' = t ELSE pc' = "xrun" /\ t' = tf
         /\ Rest /\ UNCHANGED <<pending, busy, treeVer, ts, my, bver, xver, intr, res, cb, xcb, got>>
XEnd == /\ pc = "xend" /\ SetTs("idle") /\ SetXs("idle")
        /\ IF my = req THEN Call(xcb) /\ xcb' = {} ELSE UNCHANGED <<xcb, got>>
        /\ pc' = "end"
        /\ Rest /\ UNCHANGED <<pending, busy, treeVer, my, bver, t, xver, intr, res, cb>>
End == /\ pc = "end"
       /\ IF again THEN again' = FALSE /\ pc' = "begin" /\ th' = TRUE
          ELSE th' = FALSE /\ pc' = "none" /\ again' = FALSE
       /\ UNCHANGED <<ver, pending, busy, treeVer, ts, xs, req, my, bver, t, xver, intr, tf, res, mpc, ops, cb, xcb, got, n>>
Thread == Begin \/ Get \/ Build \/ Replace \/ Done \/ Finish \/ XStart \/ XRun \/ XReady \/ XDone \/ XEnd \/ End
Next == Main \/ Thread
Spec == Init /\ [][Next]_vars /\ WF_vars(Thread) /\ WF_vars(Update) /\ WF_vars(Waited)

(* what a request by the main thread would return is up-to-date             *)
TreeOk == (mpc # "upd" /\ ~ Busy(ts)) => treeVer = ver
XformOk == (mpc # "upd" /\ ~ Busy(xs) /\ tf # 0) => res[tf] = ver
OnceOk == \A i \in 1..MaxOps : got[i] <= 1
(* called when the tree had at least the text of the request                *)
CallOk == \A c \in cb : c[2] <= ver
Settled == /\ pc = "none" /\ mpc = "rest" /\ treeVer = ver /\ ts = "idle" /\ xs = "idle"
           /\ (tf # 0 => res[tf] = ver) /\ \A i \in 1..n : got[i] = 1
Settles == <>[]Settled
(* at the moment the callbacks are called the tree is up-to-date            *)
CalledOk == [][cb # {} /\ cb' = {} => \A c \in cb : treeVer >= c[2]]_vars
============================================================================
