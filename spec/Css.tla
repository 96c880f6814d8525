-------------------------------- MODULE Css --------------------------------
(* Style sheets: loading with imports and conditions, matching of selectors *)
(* on a tree of elements, and the cascade. Strings that are looked into are *)
(* sequences of character codes.                                            *)
(*   item   [k |-> "rule", sels, decls] | [k |-> "cond", kw, q, items]      *)
(*          | [k |-> "import", file, q] | [k |-> "at", kw, decls]           *)
(*   sel    [c |-> compounds, ops |-> operators in between]                 *)
(*   compound [el, ids, cls, attrs, pcs, pes]                               *)
(*   decl   [p, v, imp]                                                     *)
(*   element [par, name, attrs, pcs, pes]; children of a parent are in the  *)
(*          order of their numbers                                          *)
EXTENDS Integers, Sequences, FiniteSets
CssSpace == {9, 10, 12, 13, 32}
CssLow(c) == IF c \in 65..90 THEN c + 32 ELSE c
CssLower(s) == <<>> \o [k \in 1..Len(s) |-> CssLow(s[k])]
StartsAt(s, x, k) == k + Len(x) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(x) - 1) = x
\* the set of the white space separated words in s
WordSet(s) == {SubSeq(s, a, b) : <<a, b>> \in
    {p \in (1..Len(s)) \X (1..Len(s)) :
        /\ p[1] <= p[2] /\ \A k \in p[1]..p[2] : s[k] \notin CssSpace
        /\ (p[1] = 1 \/ s[p[1] - 1] \in CssSpace) /\ (p[2] = Len(s) \/ s[p[2] + 1] \in CssSpace)}}
CssClass == <<99, 108, 97, 115, 115>>
CssId == <<105, 100>>
HasAttr(e, n) == \E k \in 1..Len(e.attrs) : e.attrs[k][1] = n
AttrOf(e, n) == e.attrs[CHOOSE k \in 1..Len(e.attrs) : e.attrs[k][1] = n][2]
ClassSet(e) == IF HasAttr(e, CssClass) THEN WordSet(AttrOf(e, CssClass)) ELSE {}
\* a: [n, op, v, ci], op "" for presence only
AttrMatches(e, a) ==
    /\ HasAttr(e, a.n)
    /\ \/ a.op = ""
       \/ LET x == IF a.ci THEN CssLower(AttrOf(e, a.n)) ELSE AttrOf(e, a.n)
              v == IF a.ci THEN CssLower(a.v) ELSE a.v
          IN CASE a.op = "=" -> x = v
               [] a.op = "~=" -> v \in WordSet(x)
               [] a.op = "|=" -> x = v \/ StartsAt(x, v \o <<45>>, 1)
               [] a.op = "^=" -> v # <<>> /\ StartsAt(x, v, 1)
               [] a.op = "$=" -> v # <<>> /\ Len(v) <= Len(x) /\ StartsAt(x, v, Len(x) - Len(v) + 1)
               [] a.op = "*=" -> v # <<>> /\ \E k \in 1..Len(x) : StartsAt(x, v, k)
Siblings(els, x) == IF els[x].par = 0 THEN {x} ELSE {y \in 1..Len(els) : els[y].par = els[x].par}
Before(els, x) == {y \in Siblings(els, x) : y < x}
After(els, x) == {y \in Siblings(els, x) : y > x}
PseudoClass(els, x, c) ==
    CASE c = "first-child" -> Before(els, x) = {}
      [] c = "last-child" -> After(els, x) = {}
      [] c = "only-child" -> Siblings(els, x) = {x}
      [] c = "first-of-type" -> \A y \in Before(els, x) : els[y].name # els[x].name
      [] c = "last-of-type" -> \A y \in After(els, x) : els[y].name # els[x].name
      [] c = "empty" -> \A y \in 1..Len(els) : els[y].par # x
      [] OTHER -> \E k \in 1..Len(els[x].pcs) : els[x].pcs[k] = c
CompoundMatches(els, x, c) ==
    /\ c.el = <<>> \/ c.el = els[x].name
    /\ \A k \in 1..Len(c.ids) : HasAttr(els[x], CssId) /\ AttrOf(els[x], CssId) = c.ids[k]
    /\ \A k \in 1..Len(c.cls) : c.cls[k] \in ClassSet(els[x])
    /\ \A k \in 1..Len(c.attrs) : AttrMatches(els[x], c.attrs[k])
    /\ \A k \in 1..Len(c.pcs) : PseudoClass(els, x, c.pcs[k])
    /\ \A k \in 1..Len(c.pes) : \E j \in 1..Len(els[x].pes) : els[x].pes[j] = c.pes[k]
RECURSIVE AncestorSet(_, _)
AncestorSet(els, x) == IF els[x].par = 0 THEN {} ELSE {els[x].par} \cup AncestorSet(els, els[x].par)
Candidates(els, x, op) ==
    CASE op = ">" -> IF els[x].par = 0 THEN {} ELSE {els[x].par}
      [] op = " " -> AncestorSet(els, x)
      [] op = "+" -> {y \in Before(els, x) : \A z \in Before(els, x) : z <= y}
      [] op = "~" -> Before(els, x)
RECURSIVE SelMatches(_, _, _, _)
SelMatches(els, x, s, k) ==
    /\ CompoundMatches(els, x, s.c[k])
    /\ k = 1 \/ \E y \in Candidates(els, x, s.ops[k - 1]) : SelMatches(els, y, s, k - 1)
RuleMatches(els, x, r) == \E k \in 1..Len(r.sels) : SelMatches(els, x, r.sels[k], Len(r.sels[k].c))
----------------------------------------------------------------------------
RECURSIVE SumOver(_, _, _)
SumOver(F(_), s, k) == IF k = 0 THEN 0 ELSE F(s[k]) + SumOver(F, s, k - 1)
\* specificity as one number; a rule has that of its most specific selector
CompoundSpec(c) == 10000 * Len(c.ids) + 100 * (Len(c.cls) + Len(c.attrs) + Len(c.pcs))
                   + (IF c.el = <<>> THEN 0 ELSE 1) + Len(c.pes)
SelSpec(s) == SumOver(CompoundSpec, s.c, Len(s.c))
RuleSpec(r) == IF r.sels = <<>> THEN 0
               ELSE LET S == {SelSpec(r.sels[k]) : k \in 1..Len(r.sels)} IN CHOOSE n \in S : \A m \in S : m <= n
----------------------------------------------------------------------------
\* files: sequence of [name, items]; the items with all imports filled in
RECURSIVE Load(_, _, _), LoadAll(_, _, _, _)
FileItems(files, n) == files[CHOOSE k \in 1..Len(files) : files[k].name = n].items
Load(files, it, chain) ==
    IF it.k # "import" THEN <<it>>
    ELSE IF it.file \in chain THEN <<>>
    ELSE LET sub == FileItems(files, it.file)
             got == LoadAll(files, sub, Len(sub), chain \cup {it.file})
         IN IF it.q = "" THEN got ELSE <<[k |-> "cond", kw |-> "import", q |-> it.q, items |-> got]>>
LoadAll(files, items, n, chain) ==
    IF n = 0 THEN <<>> ELSE LoadAll(files, items, n - 1, chain) \o Load(files, items[n], chain)
Sheet(files, name) == LET it == FileItems(files, name) IN LoadAll(files, it, Len(it), {name})
\* keep the conditions with keyword kw only if their query is allowed
Keep(items, kw, allow) ==
    SelectSeq(items, LAMBDA it : it.k # "cond" \/ it.kw # kw \/ \E j \in 1..Len(allow) : allow[j] = it.q)
RECURSIVE KeepAll(_, _, _)
KeepAll(items, fs, k) == IF k > Len(fs) THEN items ELSE KeepAll(Keep(items, fs[k].kw, fs[k].allow), fs, k + 1)
RECURSIVE FlatRules(_, _)
FlatRules(items, n) ==
    IF n = 0 THEN <<>>
    ELSE FlatRules(items, n - 1) \o
         (IF items[n].k = "rule" THEN <<items[n]>> ELSE IF items[n].k = "at" THEN <<>> ELSE FlatRules(items[n].items, Len(items[n].items)))
\* the other at-rules with one of the keywords, in order
RECURSIVE FlatAt(_, _, _)
FlatAt(items, kws, n) ==
    IF n = 0 THEN <<>>
    ELSE FlatAt(items, kws, n - 1) \o
         (IF items[n].k = "at" THEN IF items[n].kw \in kws THEN <<items[n]>> ELSE <<>>
          ELSE IF items[n].k = "cond" THEN FlatAt(items[n].items, kws, Len(items[n].items)) ELSE <<>>)
\* the files that are read for a sheet
RECURSIVE Reads(_, _, _), ReadsAll(_, _, _)
Reads(files, it, chain) ==
    IF it.k # "import" \/ it.file \in chain THEN {}
    ELSE {it.file} \cup ReadsAll(files, FileItems(files, it.file), chain \cup {it.file})
ReadsAll(files, items, chain) == UNION {Reads(files, items[k], chain) : k \in 1..Len(items)}
----------------------------------------------------------------------------
\* the declarations that apply, each with its weight, and the winners
Declared(rules, els, x) ==
    UNION {{<<IF rules[i].decls[j].imp THEN 1 ELSE 0, RuleSpec(rules[i]), i, j, rules[i].decls[j].p, rules[i].decls[j].v>> :
            j \in 1..Len(rules[i].decls)} : i \in {i \in 1..Len(rules) : RuleMatches(els, x, rules[i])}}
Weaker(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
Cascade(D) == {<<d[5], d[6]>> : d \in {d \in D : \A e \in D : e[5] = d[5] /\ e # d => Weaker(e, d)}}
Computed(rules, els, x) == Cascade(Declared(rules, els, x))
----------------------------------------------------------------------------
\* formats are sets of <<property, value>>
FmtProps(f) == {d[1] : d \in f}
FmtAdd(f, g) == g \cup {d \in f : d[1] \notin FmtProps(g)}
\* decorations are subtracted as a whole
Deco == {"text-decoration-line", "text-decoration-style", "text-decoration-color"}
DecoOf(f) == {d \in f : d[1] \in Deco}
FmtSub(f, g) == IF DecoOf(f) = DecoOf(g) THEN f \ g ELSE (f \ g) \cup DecoOf(f)
============================================================================
