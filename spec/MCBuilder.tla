----------------------------- MODULE MCBuilder -----------------------------
(* Design model of a tree builder that is fed with changes while it builds. *)
(* A token is one character; the tree is the sequence of tokens, a token    *)
(* carries the number of the build pass that read it, so reuse is visible.  *)
(* The environment may change the text between any two steps.               *)
EXTENDS Changes, FiniteSets
CONSTANTS Alpha, MaxLen, MaxEdits, Back
VARIABLES text,     \* the text of the document
          queue,    \* changes the builder has not seen yet
          tree,     \* installed tokens
          pc, c,    \* stage; the change being processed
          new, low, \* tokens of the new tree; position it starts at in the tree
          tail, off,\* old position from where old tokens may be used (-1: none)
          rs, rt,   \* updated range: start, and length of the text behind it
          tree0, edits, known
vars == <<text, queue, tree, pc, c, new, low, tail, off, rs, rt, tree0, edits, known>>

Texts(n) == UNION {[1..k -> Alpha] : k \in 0..n}
Init == /\ text \in Texts(MaxLen) /\ tree = text /\ queue = <<>> /\ pc = "idle"
        /\ c = NoChange /\ new = <<>> /\ low = 0 /\ tail = -1 /\ off = 0
        /\ rs = -1 /\ rt = -1 /\ tree0 = text /\ edits = 0 /\ known = text

Edit == /\ edits < MaxEdits
        /\ \E s \in 0..Len(text) : \E r \in 0..(Len(text) - s) : \E x \in Texts(2) :
             /\ Len(text) - r + Len(x) <= MaxLen /\ (r > 0 \/ x # <<>>)
             /\ text' = Slice(text, 0, s) \o x \o Slice(text, s + r, Len(text))
             /\ queue' = Append(queue, [n |-> text', s |-> s, r |-> r, a |-> Len(x)])
        /\ edits' = edits + 1
        /\ UNCHANGED <<tree, pc, c, new, low, tail, off, rs, rt, tree0, known>>

(* begin a pass: old tokens before low are kept, the tail may be reused     *)
Begin == /\ pc \in {"idle", "get"} /\ queue # <<>>
         /\ LET d == CombineAll(queue) p == Max2(0, d.s - Back) IN
            /\ c' = d /\ low' = p /\ new' = <<>>
            /\ tail' = IF d.s + d.a < Len(d.n) THEN d.s + d.r ELSE -1
            /\ off' = d.a - d.r
            /\ known' = d.n
         /\ queue' = <<>> /\ pc' = "build"
         /\ tree0' = IF pc = "idle" THEN tree ELSE tree0
         /\ rs' = IF pc = "idle" THEN -1 ELSE rs
         /\ rt' = IF pc = "idle" THEN -1 ELSE rt
         /\ UNCHANGED <<text, tree, edits>>

Pos == low + Len(new)   \* position of the next token in the text being read
Read == /\ pc = "build" /\ queue = <<>> /\ Pos < Len(c.n)
        /\ ~ (tail >= 0 /\ Pos - off >= tail /\ Pos - off < Len(tree) /\ tree[Pos - off + 1] = c.n[Pos + 1])
        /\ new' = Append(new, c.n[Pos + 1])
        /\ UNCHANGED <<text, queue, tree, pc, c, low, tail, off, rs, rt, tree0, edits, known>>

(* the tail token is reached: use the old tokens from there                 *)
Join == /\ pc = "build" /\ queue = <<>> /\ Pos < Len(c.n)
        /\ tail >= 0 /\ Pos - off >= tail /\ Pos - off < Len(tree) /\ tree[Pos - off + 1] = c.n[Pos + 1]
        /\ tree' = Slice(tree, 0, low) \o new \o Slice(tree, Pos - off, Len(tree))
        /\ rs' = IF rs = -1 THEN low ELSE Min2(rs, low)
        /\ LET t == Len(c.n) - Pos IN rt' = IF rt = -1 THEN t ELSE Min2(rt, t)
        /\ pc' = "get"
        /\ UNCHANGED <<text, queue, c, new, low, tail, off, tree0, edits, known>>

ReachEnd == /\ pc = "build" /\ queue = <<>> /\ Pos >= Len(c.n)
            /\ tree' = Slice(tree, 0, low) \o new
            /\ rs' = IF rs = -1 THEN low ELSE Min2(rs, low)
            /\ rt' = 0 /\ pc' = "get"
            /\ UNCHANGED <<text, queue, c, new, low, tail, off, tree0, edits, known>>

(* changes arrived while building: restart, as far back as needed           *)
Restart == /\ pc = "build" /\ queue # <<>>
           /\ LET d == CombineAll(queue) p == Max2(0, d.s - Back)
                  nt == d.s + d.a
                  o2 == off + d.a - d.r
              IN /\ IF p >= low
                    THEN low' = low /\ new' = SubSeq(new, 1, Min2(Len(new), p - low))
                    ELSE low' = p /\ new' = <<>>
                 /\ off' = o2
                 /\ tail' = IF tail = -1 \/ nt >= Len(d.n) THEN -1
                            ELSE Max2(tail, nt - o2)
                 /\ c' = d
                 /\ known' = d.n
           /\ queue' = <<>>
           /\ UNCHANGED <<text, tree, pc, rs, rt, tree0, edits>>

Finish == /\ pc = "get" /\ queue = <<>> /\ pc' = "idle"
          /\ UNCHANGED <<text, queue, tree, c, new, low, tail, off, rs, rt, tree0, edits, known>>

Build == Begin \/ Read \/ Join \/ ReachEnd \/ Restart \/ Finish
Next == Edit \/ Build
Spec == Init /\ [][Next]_vars /\ WF_vars(Build)

(* when no change is pending the tree is that of the text                   *)
UpToDate == (pc \in {"idle", "get"} /\ queue = <<>>) => tree = text
(* a pass installs the tree of the text it knew                             *)
Installed == pc = "get" => tree = known
(* the combined change always covers what happened since the known text     *)
CoversOk == queue # <<>> => Covers(known, CombineAll(queue))
(* outside of the updated range the tokens are the old ones                 *)
RangeOk == (pc = "idle" /\ queue = <<>> /\ rs >= 0) =>
    LET e == Len(tree) - rt d == Len(tree) - Len(tree0) IN
    /\ 0 <= rs /\ rs <= e /\ e <= Len(tree)
    /\ Slice(tree, 0, rs) = Slice(tree0, 0, rs)
    /\ e - d >= 0 /\ Slice(tree, e, Len(tree)) = Slice(tree0, e - d, Len(tree0))
Settles == <>[](pc = "idle" /\ queue = <<>> /\ tree = text)
============================================================================
