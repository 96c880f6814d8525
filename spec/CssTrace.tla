------------------------------ MODULE CssTrace ------------------------------
(* Trace: [files, main, els, ev]. Lines:                                    *)
(*   select: properties of element x with the conditions in filt filtered   *)
(*   theme:  properties of the format for an action path, or a base format  *)
(*   add/sub: two formats and the result; write: a format and the format    *)
(*   read back from what it was written as; short: a shorthand property;    *)
(*   same: comparing two formats; at: other at-rules; names: the files used *)
EXTENDS Css, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, sheet
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ sheet = Sheet(Traces[t].files, Traces[t].main)
SetOf(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE JoinSp(_, _)
JoinSp(p, k) == IF k = 0 THEN <<>> ELSE (IF k = 1 THEN <<>> ELSE JoinSp(p, k - 1) \o <<32>>) \o CssLower(p[k])
ParceClass == <<112, 97, 114, 99, 101>>
Elem(par, cls, pcs, pes) == [par |-> par, name |-> <<>>, attrs |-> << <<CssClass, cls>> >>, pcs |-> pcs, pes |-> pes]
ThemeEls(q) == IF q.path # <<>> THEN <<Elem(0, ParceClass, <<>>, <<>>), Elem(1, JoinSp(q.path, Len(q.path)), <<>>, <<>>)>>
               ELSE <<Elem(0, IF q.role = <<>> THEN ParceClass ELSE ParceClass \o <<32>> \o q.role, q.pcs, q.pes)>>
Want(q, rules) ==
    CASE q.op = "select" -> Computed(rules, Traces[t].els, q.x)
      [] q.op = "theme" -> LET els == ThemeEls(q) IN {d \in Computed(rules, els, Len(els)) : d[2] # ""}
      [] q.op = "add" -> FmtAdd(SetOf(q.a), SetOf(q.b))
      [] q.op = "sub" -> FmtSub(SetOf(q.a), SetOf(q.b))
      \* the longhand properties that a shorthand stands for
      [] q.op = "short" -> SetOf(q.a)
      [] q.op = "write" -> SetOf(q.a)
Judge(q) ==
    IF q.exc # "" THEN <<"Exception", q.exc>>
    ELSE IF q.op = "at"
    THEN LET w == FlatAt(sheet, SetOf(q.path), Len(sheet)) IN
         IF /\ Len(w) = Len(q.got)
            /\ \A k \in 1..Len(w) : q.got[k][1] = w[k].kw /\ SetOf(q.got[k][2]) = SetOf(w[k].decls)
         THEN <<"", "">> ELSE <<"AtRules", w>>
    ELSE IF q.op = "names"
    THEN LET tr == Traces[t]
             w == ({tr.main} \cup ReadsAll(tr.files, FileItems(tr.files, tr.main), {tr.main})) \ {"+"}
             x == IF tr.main = "+" /\ w = {} THEN {"m"} ELSE w
         IN IF SetOf(q.got) = x THEN <<"", "">> ELSE <<"Filenames", x>>
    ELSE LET kept == KeepAll(sheet, q.filt, 1)
             w == IF q.op = "same" THEN {} ELSE Want(q, FlatRules(kept, Len(kept)))
         IN IF q.op = "same"
            THEN \* properties without a meaningful value may or may not count
                 IF \/ <<"eq", "">> \in SetOf(q.got) /\ SetOf(q.a) # SetOf(q.b)
                    \/ q.a # <<>> /\ <<"true", "">> \notin SetOf(q.got)
                 THEN <<"Same", q.got>> ELSE <<"", "">>
            ELSE IF w = SetOf(q.got) THEN <<"", "">> ELSE <<q.op, <<w \ SetOf(q.got), SetOf(q.got) \ w>>>>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == Judge(q)
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2]>>)
        /\ l' = l + 1 /\ UNCHANGED <<t, sheet>>
============================================================================
