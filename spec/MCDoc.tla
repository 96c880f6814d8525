------------------------------ MODULE MCDoc --------------------------------
(* Exhaustive model of the document: every history up to MaxOps calls.      *)
EXTENDS Doc, TLC
CONSTANTS Alpha, MaxLen, MaxOps, MaxDepth
VARIABLES st, n, mirror, last

Texts(k) == UNION {[1..i -> Alpha] : i \in 0..k}
Keys == {<<s, e>> \in (0..MaxLen) \X (0..MaxLen) : s <= e}

Evs == {[op |-> "set", s |-> k[1], e |-> k[2], t |-> t] : k \in Keys, t \in Texts(1)}
       \cup {[op |-> o] : o \in {"enter", "exit", "cancel", "undo", "redo", "clear"}}
       \cup {[op |-> "setmod", b |-> b] : b \in {0, 1}}
       \cup {[op |-> "settext", t |-> t] : t \in Texts(1)}

Cursors == << [pos |-> 0, end |-> 0], [pos |-> 1, end |-> 2], [pos |-> 2, end |-> NONE] >>

Init == /\ \E t \in Texts(MaxLen) : st = [InitState(t) EXCEPT !.curs = Cursors] /\ mirror = t
        /\ \A i \in 1..Len(Cursors) : Cursors[i].pos <= Len(st.text) /\ (Cursors[i].end = NONE \/ Cursors[i].end <= Len(st.text))
        /\ n = 0 /\ last = "init"

(* An observer that only sees the notifications and the resulting text.     *)
Observe(m, r) ==
    LET tc == {x \in r.notes : x[1] = "text_change"} IN
    IF tc = {} THEN m
    ELSE LET x == CHOOSE y \in tc : TRUE IN
         Splice(m, x[2], x[2] + x[3], Slice(r.st.text, x[2], x[2] + x[4]))

(* merged no-op changes are stored as undo items that do nothing; these are *)
(* left out of the model (see DESIGN.md)                                    *)
Sane(s2) == \A c \in {Merge(s2.pend)[i] : i \in 1..Len(Merge(s2.pend))} : ~ NoOp(s2.text, c)

Next == /\ n < MaxOps
        /\ \E ev \in Evs :
             /\ ev.op \in {"exit", "cancel"} => st.depth > 0
             /\ ev.op = "enter" => st.depth < MaxDepth
             /\ ev.op = "exit" => Sane(st)
             /\ LET r == Step(st, ev) IN
                /\ Len(r.st.text) <= MaxLen
                /\ st' = r.st
                /\ mirror' = Observe(mirror, r)
                /\ last' = IF r.exc = "" THEN ev.op ELSE r.exc
        /\ n' = n + 1

Spec == Init /\ [][Next]_<<st, n, mirror, last>>

MirrorOk == mirror = st.text
(* the stored inverse changes lead to the stored text                       *)
InverseOk ==
    /\ st.undo # <<>> => ApplyBatch(st.text, st.undo[Len(st.undo)].inv) = st.undo[Len(st.undo)].text
    /\ st.redo # <<>> => ApplyBatch(st.text, st.redo[Len(st.redo)].inv) = st.redo[Len(st.redo)].text
CursorsOk == \A i \in 1..Len(st.curs) :
    /\ 0 <= st.curs[i].pos /\ st.curs[i].pos <= Len(st.text)
    /\ st.curs[i].end # NONE => st.curs[i].pos <= st.curs[i].end /\ st.curs[i].end <= Len(st.text)
(* undo and redo are inverse of each other                                  *)
UndoRedoOk ==
    (st.depth = 0 /\ st.undo # <<>>) =>
        LET u == Step(st, [op |-> "undo"]).st
            r == Step(u, [op |-> "redo"]).st
        IN /\ r.text = st.text /\ Modified(r) = Modified(st)
           /\ r.redo = <<>> \/ r.redo[Len(r.redo)].text = st.redo[Len(st.redo)].text
           /\ u.redo # <<>>
(* an aborted edit context changes nothing                                  *)
AtomicOk == last \in {"cancel", "RuntimeError"} => st.pend = <<>> \/ st.depth > 0
UniqueClean == Cardinality({i \in 1..Len(st.undo) : st.undo[i].id = st.saved}
                           ) + Cardinality({i \in 1..Len(st.redo) : st.redo[i].id = st.saved})
                 + (IF st.id = st.saved THEN 1 ELSE 0) <= 1
============================================================================
