------------------------------- MODULE Doc ---------------------------------
(* The editable document: text, batched edits, undo/redo, the modified flag, *)
(* cursors and the notifications, as one state machine.                     *)
(*                                                                          *)
(* A state is a record                                                      *)
(*   text     the text                                                      *)
(*   depth    nesting depth of edit contexts                                *)
(*   pend     pending changes in registration order                         *)
(*   undo     sequence of [text, id, inv]: state to go back to              *)
(*   redo     likewise                                                      *)
(*   id       identity of the current text state                            *)
(*   saved    identity of the state that counts as unmodified (or -1)       *)
(*   nid      next fresh identity                                           *)
(*   rev      revision number                                               *)
(*   curs     sequence of [pos, end] (end NONE: the end of the document)    *)
(* Step(st, ev) returns [st, exc, notes, ret]: the state after the call,    *)
(* the exception it raises ("" if none), the notifications and the result.  *)
EXTENDS TextOps

InitState(text) ==
    [text |-> text, depth |-> 0, pend |-> <<>>, undo |-> <<>>, redo |-> <<>>,
     id |-> 0, saved |-> 0, nid |-> 1, rev |-> 0, curs |-> <<>>]

Modified(st) == st.id # st.saved

(* ---- cursors ---------------------------------------------------------- *)
(* One change: pos stays in front of text inserted at it, and moves to the  *)
(* start when its surroundings are removed; end moves behind inserted text. *)
CursorOne(c, ch) ==
    LET d == ch.s + Len(ch.t) - ch.e IN
    [pos |-> IF c.pos > ch.s THEN (IF ch.e >= c.pos THEN ch.s ELSE c.pos + d) ELSE c.pos,
     end |-> IF c.end # NONE /\ c.end >= ch.s
             THEN (IF ch.e >= c.end THEN ch.s + Len(ch.t) ELSE c.end + d) ELSE c.end]
(* A batch: all positions refer to the old text, so the last change first.  *)
CursorBatch(c, cs) ==
    LET F[i \in 0..Len(cs)] == IF i = 0 THEN c ELSE CursorOne(F[i-1], cs[Len(cs) + 1 - i])
    IN F[Len(cs)]

(* ---- batches ---------------------------------------------------------- *)
Starts(pend) == {pend[i].s : i \in 1..Len(pend)}
(* changes with the same start are one change: their texts in the order     *)
(* given, removing the longest of the ranges.                               *)
MergeAt(pend, s) ==
    LET same == SelectSeq(pend, LAMBDA c : c.s = s)
        E == {same[i].e : i \in 1..Len(same)}
    IN [s |-> s, e |-> CHOOSE x \in E : \A y \in E : x >= y,
        t |-> FlattenSeq([i \in 1..Len(same) |-> same[i].t])]
Merge(pend) ==
    LET ss == SetToSortSeq(Starts(pend), <)
    IN [i \in 1..Len(ss) |-> MergeAt(pend, ss[i])]
Overlaps(cs) == \E i \in 1..(Len(cs) - 1) : cs[i+1].s < cs[i].e

NoOp(text, c) == Slice(text, c.s, c.e) = c.t
Span(cs) == \* the one notification for a batch: position, removed, added
    LET a == cs[1].s  b == cs[Len(cs)].e
        F[i \in 0..Len(cs)] == IF i = 0 THEN 0 ELSE F[i-1] + Len(cs[i].t) - (cs[i].e - cs[i].s)
    IN <<a, b - a, b - a + F[Len(cs)]>>

Note(name, args) == <<name>> \o args
BoolNote(name, old, new) == IF old = new THEN {} ELSE {<<name, new>>}

Result(st, exc, notes, ret) == [st |-> st, exc |-> exc, notes |-> notes, ret |-> ret]
Notes(st, st2) ==
    BoolNote("modification_changed", Modified(st), Modified(st2))
    \cup BoolNote("undo_available", st.undo # <<>>, st2.undo # <<>>)
    \cup BoolNote("redo_available", st.redo # <<>>, st2.redo # <<>>)

(* Apply sorted, non-overlapping changes as one user edit.                  *)
Edit(st, cs) ==
    LET st2 == [st EXCEPT
            !.text = ApplyBatch(st.text, cs),
            !.undo = Append(st.undo, [text |-> st.text, id |-> st.id, inv |-> InverseBatch(st.text, cs)]),
            !.redo = <<>>, !.id = st.nid, !.nid = st.nid + 1, !.rev = st.rev + 1,
            !.curs = [i \in 1..Len(st.curs) |-> CursorBatch(st.curs[i], cs)]]
    IN Result(st2, "", Notes(st, st2) \cup {<<"text_change">> \o Span(cs)}, <<>>)

Quiet(st) == Result(st, "", {}, <<>>)
Raise(st, x) == Result(st, x, {}, <<>>)

(* register the change; applied at once outside an edit context             *)
Change(st, c) ==
    IF NoOp(st.text, c) THEN Quiet(st)
    ELSE IF st.depth > 0 THEN Quiet([st EXCEPT !.pend = Append(@, c)])
    ELSE Edit(st, <<c>>)

Leave(st) ==
    IF st.depth > 1 THEN Quiet([st EXCEPT !.depth = @ - 1])
    ELSE LET cs == Merge(st.pend)
             st1 == [st EXCEPT !.depth = 0, !.pend = <<>>]
         IN IF cs = <<>> THEN Quiet(st1)
            ELSE IF Overlaps(cs) THEN Raise(st1, "RuntimeError")
            ELSE Edit(st1, cs)

(* back (or forward) to a stored state; cursors follow the inverse changes  *)
Travel(st, from, to, isUndo) ==
    LET it == from[Len(from)]
        cs == SelectSeq(it.inv, LAMBDA c : ~ NoOp(st.text, c))
        back == [text |-> st.text, id |-> st.id, inv |-> InverseBatch(st.text, cs)]
        rest == SubSeq(from, 1, Len(from) - 1)
        st2 == [st EXCEPT
            !.text = it.text, !.id = it.id, !.rev = st.rev + 1,
            !.undo = IF isUndo THEN rest ELSE Append(to, back),
            !.redo = IF isUndo THEN Append(to, back) ELSE rest,
            !.curs = [i \in 1..Len(st.curs) |-> CursorBatch(st.curs[i], cs)]]
    IN Result(st2, "", Notes(st, st2) \cup {<<"text_change">> \o Span(cs)}, <<>>)

Step(st, ev) ==
    CASE ev.op = "set" ->     \* d[s:e] = t  (also insert, append, +=, del)
            LET k == SliceKey(ev.s, ev.e, Len(st.text)) IN
            Change(st, [s |-> k[1], e |-> k[2], t |-> ev.t])
      [] ev.op = "seti" ->    \* d[i] = t
            LET i == IF ev.s < 0 THEN ev.s + Len(st.text) ELSE ev.s IN
            IF 0 <= i /\ i < Len(st.text)
            THEN Change(st, [s |-> i, e |-> i + 1, t |-> ev.t])
            ELSE Raise(st, "IndexError")
      [] ev.op = "get" ->     \* d[s:e]
            LET k == SliceKey(ev.s, ev.e, Len(st.text)) IN
            Result(st, "", {}, Slice(st.text, k[1], k[2]))
      [] ev.op = "geti" ->
            LET i == IF ev.s < 0 THEN ev.s + Len(st.text) ELSE ev.s IN
            IF 0 <= i /\ i < Len(st.text) THEN Result(st, "", {}, <<st.text[i + 1]>>)
            ELSE Raise(st, "IndexError")
      [] ev.op = "settext" ->
            IF st.depth > 0 THEN Raise(st, "RuntimeError")
            ELSE Change(st, [s |-> 0, e |-> Len(st.text), t |-> ev.t])
      [] ev.op = "enter" -> Quiet([st EXCEPT !.depth = @ + 1])
      [] ev.op = "exit" -> Leave(st)
      [] ev.op = "cancel" -> Quiet([st EXCEPT !.depth = 0, !.pend = <<>>])
      [] ev.op = "undo" ->
            IF st.depth > 0 THEN Raise(st, "RuntimeError")
            ELSE IF st.undo = <<>> THEN Quiet(st)
            ELSE Travel(st, st.undo, st.redo, TRUE)
      [] ev.op = "redo" ->
            IF st.depth > 0 THEN Raise(st, "RuntimeError")
            ELSE IF st.redo = <<>> THEN Quiet(st)
            ELSE Travel(st, st.redo, st.undo, FALSE)
      [] ev.op = "clear" ->
            LET st2 == [st EXCEPT !.undo = <<>>, !.redo = <<>>] IN
            Result(st2, "", Notes(st, st2), <<>>)
      [] ev.op = "setmod" ->
            LET st2 == IF ev.b = 0 THEN [st EXCEPT !.saved = st.id]
                       ELSE IF st.saved = st.id THEN [st EXCEPT !.saved = -1] ELSE st
            IN Result(st2, "", Notes(st, st2), <<>>)
      [] ev.op = "cursor" ->
            Quiet([st EXCEPT !.curs = Append(@, [pos |-> ev.s, end |-> ev.e])])
      [] ev.op = "setcur" ->
            Quiet([st EXCEPT !.curs[ev.i] = [pos |-> ev.s, end |-> ev.e]])

============================================================================
