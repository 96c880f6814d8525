------------------------------ MODULE Validate ------------------------------
(* What validating and inspecting a language definition reports.            *)
(* Cs: the language classes; a class is [base: 0 or an earlier class, defs: *)
(* sequence of [name, rules]]. A lexicon is <<class, name>>: the definition *)
(* comes from the first class in the line of bases that has the name, names *)
(* in it refer to lexicons of the class itself.                             *)
(* rule: [k, pat, rep, acts, tgt]; k: "pat" | "bad" (not a valid pattern) | *)
(* "none" | "dact" | "dtgt" | "short" | "notup"; rep: the pattern as text;  *)
(* acts: possible actions; tgt: sequence of targets.                        *)
(* target: [t: "num", n] | [t: "lex", c: 0 (own class) or class, n: name] | *)
(* [t: "bad"] | [t: "sel", xs: sequence of sequences of targets]            *)
EXTENDS Regex

RECURSIVE DefOf(_, _, _)
DefOf(Cs, c, name) ==
    IF \E i \in 1..Len(Cs[c].defs) : Cs[c].defs[i].name = name
    THEN Cs[c].defs[CHOOSE i \in 1..Len(Cs[c].defs) : Cs[c].defs[i].name = name].rules
    ELSE DefOf(Cs, Cs[c].base, name)
RulesOf(Cs, lx) == DefOf(Cs, lx[1], lx[2])

RECURSIVE NamesOf(_, _)
NamesOf(Cs, c) == IF c = 0 THEN {}
                  ELSE {Cs[c].defs[i].name : i \in 1..Len(Cs[c].defs)} \cup NamesOf(Cs, Cs[c].base)

LexOf(lx, tg) == <<IF tg.c = 0 THEN lx[1] ELSE tg.c, tg.n>>

RECURSIVE Leaf(_)
Leaf(tgt) == UNION {IF tgt[i].t = "sel" THEN UNION {Leaf(tgt[i].xs[j]) : j \in 1..Len(tgt[i].xs)} ELSE {tgt[i]}
                    : i \in 1..Len(tgt)}

(* ---------------------------------------------------- default targets    *)
(* A context is <<lexicon, number>>, no two have the same number. Enter and *)
(* leave contexts as the targets say; <<>> when the first one is left.      *)
RECURSIVE Follow(_, _, _, _, _)
Follow(lx, tgt, i, st, new) ==
    IF i > Len(tgt) THEN [st |-> st, new |-> new]
    ELSE IF tgt[i].t = "lex" THEN Follow(lx, tgt, i + 1, Append(st, <<LexOf(lx, tgt[i]), new>>), new + 1)
    ELSE IF tgt[i].n < 0
         THEN IF Len(st) + tgt[i].n < 1 THEN [st |-> <<>>, new |-> new]
              ELSE Follow(lx, tgt, i + 1, SubSeq(st, 1, Len(st) + tgt[i].n), new)
    ELSE Follow(lx, tgt, i + 1, st \o [k \in 1..tgt[i].n |-> <<lx, new + k - 1>>], new + tgt[i].n)

DTargets(rules) == SelectSeq(rules, LAMBDA r : r.k = "dtgt")

(* "" the default targets come to an end; "type": not a number or lexicon;  *)
(* "nowhere": the context does not change; "circular": an earlier context   *)
(* is entered again; "runaway": new contexts forever                        *)
RECURSIVE Walk(_, _, _, _)
Walk(Cs, st, seen, new) ==
    LET top == st[Len(st)]
        d == DTargets(RulesOf(Cs, top[1]))
    IN IF d = <<>> THEN ""
       ELSE IF \E i \in 1..Len(d[1].tgt) : d[1].tgt[i].t \in {"bad", "sel"}
            THEN LET k == CHOOSE i \in 1..Len(d[1].tgt) : /\ d[1].tgt[i].t \in {"bad", "sel"}
                                                          /\ \A j \in 1..(i - 1) : d[1].tgt[j].t \notin {"bad", "sel"}
                     f == Follow(top[1], SubSeq(d[1].tgt, 1, k - 1), 1, st, new)
                 IN IF f.st = <<>> THEN "" ELSE "type"
       ELSE LET f == Follow(top[1], d[1].tgt, 1, st, new) IN
            IF f.st = <<>> THEN ""
            ELSE LET nt == f.st[Len(f.st)] IN
                 IF nt[2] = top[2] THEN "nowhere"
                 ELSE IF nt[2] \in seen THEN "circular"
                 ELSE IF Cardinality(seen) > 100 THEN "runaway"
                 ELSE Walk(Cs, f.st, seen \cup {nt[2]}, f.new)
DefaultWalk(Cs, lx) == Walk(Cs, <<<<lx, 1>>>>, {1}, 2)

(* ---------------------------------------------------- errors, warnings   *)
MatchesEmpty(p) == Ends(p, <<>>, 0, <<>>, FALSE) # <<>>

Errors(Cs, lx) ==
    LET rs == RulesOf(Cs, lx)
        N(k) == Cardinality({i \in 1..Len(rs) : rs[i].k = k})
    IN (IF \E i \in 1..Len(rs) : rs[i].k \in {"short", "notup"} THEN {"rule"} ELSE {})
       \cup (IF N("dact") > 1 \/ N("dtgt") > 1 THEN {"conflict"} ELSE {})
       \cup (IF N("dact") > 0 /\ N("dtgt") > 0 THEN {"both"} ELSE {})
       \cup (IF \E i \in 1..Len(rs) : rs[i].k = "bad" THEN {"regex"} ELSE {})
       \cup (IF \E i \in 1..Len(rs) : /\ rs[i].k \in {"pat", "bad", "none"}
                                      /\ \E x \in Leaf(rs[i].tgt) : x.t = "bad" THEN {"target"} ELSE {})
       \cup (IF N("dtgt") > 0 /\ DefaultWalk(Cs, lx) \in {"type", "nowhere", "runaway"} THEN {"default"} ELSE {})

Warnings(Cs, lx) ==
    LET rs == RulesOf(Cs, lx) IN
    (IF \E i \in 1..Len(rs) : rs[i].k = "none" THEN {"none"} ELSE {})
    \cup (IF \E i \in 1..Len(rs) : rs[i].k = "pat" /\ MatchesEmpty(rs[i].pat) THEN {"empty"} ELSE {})
    \cup (IF \E i, j \in 1..Len(rs) : /\ i # j /\ rs[i].k \in {"pat", "bad"} /\ rs[j].k \in {"pat", "bad"}
                                      /\ rs[i].rep = rs[j].rep THEN {"repeated"} ELSE {})
    \cup (IF DTargets(rs) # <<>> /\ DefaultWalk(Cs, lx) = "circular" THEN {"circular"} ELSE {})

Lexicons(Cs, c) == {<<c, n>> : n \in NamesOf(Cs, c)}
Valid(Cs, c) == \A lx \in Lexicons(Cs, c) : Errors(Cs, lx) = {}

(* ---------------------------------------------------- inspection         *)
Full(r) == r.k \in {"pat", "bad", "none", "dact", "dtgt"}
ActionsIn(Cs, c) == UNION {UNION {{r.acts[i] : i \in 1..Len(r.acts)} :
                            r \in {RulesOf(Cs, lx)[k] : k \in {k \in 1..Len(RulesOf(Cs, lx)) : Full(RulesOf(Cs, lx)[k])}}}
                          : lx \in Lexicons(Cs, c)}
LanguagesIn(Cs, c) ==
    {LexOf(x[1], x[2])[1] : x \in UNION {{<<lx, g>> : g \in UNION {{h \in Leaf(RulesOf(Cs, lx)[k].tgt) : h.t = "lex"}
                                       : k \in {k \in 1..Len(RulesOf(Cs, lx)) : Full(RulesOf(Cs, lx)[k])}}}
                                 : lx \in Lexicons(Cs, c)}} \ {c}
=============================================================================
