------------------------------ MODULE Lexing -------------------------------
(* The meaning of a language definition: the events that lexing a text      *)
(* yields, and the lexicons that are open at the end.                       *)
(*                                                                          *)
(* A language is [lex |-> sequence of [consume, ic, rules]]. A rule is      *)
(*   [k |-> "pat", p |-> pattern, ng |-> number of groups, items |-> ...]   *)
(*   [k |-> "da", items |-> <<action>>]   default action                    *)
(*   [k |-> "dt", items |-> targets]      default target                    *)
(* A lexicon on the stack is <<index, arg>>, arg is NoneStr or a text.      *)
EXTENDS Regex

NoneStr == <<-1>>

(* ---- dynamic rule items ------------------------------------------------ *)
(* environment: [arg, text, caps, full]: lexicon argument, matched text,    *)
(* captured groups (positions in full)                                      *)
GroupText(env, n) ==
    LET g == env.caps[n] IN IF g[1] < 0 THEN NoneStr ELSE Slice(env.full, g[1], g[2])

RECURSIVE Expr(_, _)
Expr(x, env) ==
    CASE x.t = "text" -> env.text
      [] x.t = "arg" -> env.arg
      [] x.t = "m" -> GroupText(env, x.n)
      [] x.t = "str" -> x.s
      [] x.t = "none" -> NoneStr
      [] x.t = "cat" -> Expr(x.a, env) \o Expr(x.b, env)
      [] x.t = "sl" -> LET v == Expr(x.e, env) k == SliceKey(x.a, x.b, Len(v)) IN Slice(v, k[1], k[2])

RECURSIVE Items(_, _), Item(_, _)
Items(xs, env) == \* evaluated and unrolled
    IF xs = <<>> THEN <<>> ELSE Item(Head(xs), env) \o Items(Tail(xs), env)

FirstGroup(x, env) ==
    LET S == {i \in 1..Len(x.ns) : x.ns[i] > 0 /\ env.caps[x.ns[i]][1] >= 0} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
FirstMember(v, ss) ==
    LET S == {i \in 1..Len(ss) : InSeq(v, ss[i])} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Item(x, env) ==
    CASE x.t \in {"act", "skip", "using", "grp", "int", "lex"} -> <<x>>
      [] x.t = "list" -> Items(x.xs, env)
      [] x.t = "ifeq" -> Items(IF Expr(x.a, env) = Expr(x.b, env) THEN x.r ELSE x.e, env)
      [] x.t = "ifneq" -> Items(IF Expr(x.a, env) # Expr(x.b, env) THEN x.r ELSE x.e, env)
      [] x.t = "ifmember" -> Items(IF InSeq(Expr(x.a, env), x.set) THEN x.r ELSE x.e, env)
      [] x.t = "ifgroup" -> Items(IF env.caps[x.n][1] >= 0 THEN x.r ELSE x.e, env)
      [] x.t = "gselect" -> LET i == FirstGroup(x, env) IN
                            Items(IF i = 0 THEN x.e ELSE x.rs[i], env)
      [] x.t = "dselect" -> LET i == FirstMember(Expr(x.a, env), [j \in 1..Len(x.keys) |-> <<x.keys[j]>>]) IN
                            Items(IF i = 0 THEN x.e ELSE x.rs[i], env)
      [] x.t = "findmember" -> LET i == FirstMember(Expr(x.a, env), x.sets) IN
                            Items(IF i = 0 THEN x.e ELSE x.rs[i], env)
      [] x.t = "sellen" -> Items(x.rs[(Len(Expr(x.a, env)) % Len(x.rs)) + 1], env)
      [] x.t = "derive" -> <<[t |-> "lex", lx |-> x.lx, arg |-> Expr(x.a, env)]>>
      [] x.t = "target" -> \* target(call(f, text), lexicons): by length
            LET n == Len(Expr(x.a, env)) % 3 IN
            IF n = 0 THEN <<[t |-> "int", n |-> x.n]>>
            ELSE <<[t |-> "lex", lx |-> x.lxs[n], arg |-> IF x.d THEN Expr(x.a, env) ELSE NoneStr]>>
      [] x.t = "tgtix" -> \* target((index, argument), lexicons): index by length
            <<[t |-> "lex", lx |-> x.lxs[(Len(Expr(x.a, env)) % Len(x.lxs)) + 1], arg |-> Expr(x.g, env)]>>
      [] x.t = "tgtdl" -> \* the same, the lexicons already have an argument
            LET g == Expr(x.g, env) IN
            <<[t |-> "lex", lx |-> x.lxs[(Len(Expr(x.a, env)) % Len(x.lxs)) + 1],
               arg |-> IF g = NoneStr THEN Expr(x.h, env) ELSE g]>>
      [] x.t = "usingd" -> <<[t |-> "using", lx |-> x.lx, arg |-> Expr(x.a, env)]>>
      [] x.t = "selc" -> Items(x.rs[x.n], env)

LexOf(x) == <<x.lx, x.arg>>

(* ---- targets ----------------------------------------------------------- *)
(* net effect of the target items in lexicon self: [pop, push]              *)
MakeTarget(self, items) ==
    LET F[i \in 0..Len(items)] ==
          IF i = 0 THEN [pop |-> 0, push |-> <<>>]
          ELSE LET f == F[i-1]  x == items[i] IN
               IF x.t = "lex" THEN [f EXCEPT !.push = Append(@, LexOf(x))]
               ELSE IF x.n >= 0 THEN [f EXCEPT !.push = @ \o [j \in 1..x.n |-> self]]
               ELSE IF -x.n <= Len(f.push) THEN [f EXCEPT !.push = SubSeq(@, 1, Len(@) + x.n)]
               ELSE [pop |-> f.pop + (-x.n - Len(f.push)), push |-> <<>>]
    IN F[Len(items)]
NoTarget == [pop |-> 0, push |-> <<>>]

(* ---- rules of a lexicon with argument ---------------------------------- *)
IsArg(arg) == arg # NoneStr
Pat(r, arg) == \* the pattern, given the lexicon argument; <<>> if none
    CASE r.p.t = "arg" -> IF IsArg(arg) THEN <<[t |-> "lit", s |-> r.p.pre \o arg \o r.p.suf]>>
                          ELSE r.p.dflt
      [] r.p.t = "ifarg" -> IF IsArg(arg) THEN r.p.a ELSE r.p.b
      [] OTHER -> <<r.p>>
RulesOfKind(L, lx, k) == SelectSeq(L.lex[lx].rules, LAMBDA r : r.k = k)
PatRules(L, lx, arg) ==
    LET rs == SelectSeq(L.lex[lx].rules, LAMBDA r : r.k = "pat" /\ Pat(r, arg) # <<>>)
    IN [i \in 1..Len(rs) |-> [p |-> Pat(rs[i], arg)[1], ng |-> rs[i].ng, items |-> rs[i].items]]

(* first rule matching at pos: [i, e, c], i = 0 if none                     *)
RECURSIVE RuleAt(_, _, _, _, _, _), SearchFrom(_, _, _, _, _)
RuleAt(rs, i, text, pos, ic, nonempty) ==
    IF i > Len(rs) THEN [i |-> 0, s |-> -1, e |-> -1, c |-> <<>>]
    ELSE LET m == MatchPat(rs[i].p, rs[i].ng, text, pos, ic, nonempty) IN
         IF m.ok THEN [i |-> i, s |-> pos, e |-> m.e, c |-> m.c]
         ELSE RuleAt(rs, i + 1, text, pos, ic, nonempty)
SearchFrom(rs, text, pos, ic, nonempty) ==
    LET m == RuleAt(rs, 1, text, pos, ic, nonempty) IN
    IF m.i > 0 \/ pos >= Len(text) THEN m ELSE SearchFrom(rs, text, pos + 1, ic, FALSE)

(* ---- lexing ------------------------------------------------------------ *)
(* state: [pos, must, stack, low, old, circ, out, done]; low and old: the   *)
(* least stack depth since, and the stack depth at, the previous event      *)
RECURSIVE Run(_, _, _), LexemesOf(_, _, _, _, _, _)

LexInit(stack, pos) ==
    [pos |-> pos, must |-> FALSE, stack |-> stack, low |-> Len(stack), old |-> Len(stack),
     circ |-> {}, out |-> <<>>, done |-> FALSE]

SubLexemes(L, lx, text, off) == \* lexemes of lexing text with another lexicon
    LET r == Run(L, text, LexInit(<<lx>>, 0)).out
        all == FlattenSeq([i \in 1..Len(r) |-> r[i].lexemes])
    IN [i \in 1..Len(all) |-> <<all[i][1] + off, all[i][2], all[i][3]>>]

(* lexemes <<pos, text, action>> of an evaluated action                     *)
LexemesOf(L, a, pos, txt, env, top) ==
    CASE a.t = "act" -> IF txt = <<>> \/ txt = NoneStr THEN <<>> ELSE <<<<pos, txt, a.a>>>>
      [] a.t = "skip" -> <<>>
      [] a.t = "using" -> SubLexemes(L, LexOf(a), txt, pos)
      [] a.t = "grp" -> FlattenSeq([i \in 1..Len(a.xs) |->
            LET g == env.caps[i]
                gt == GroupText(env, i)
                as == Items(<<a.xs[i]>>, [env EXCEPT !.text = gt])
            IN FlattenSeq([j \in 1..Len(as) |-> LexemesOf(L, as[j], g[1], gt, env, FALSE)])])

Emit(L, st, a, pos, txt, env) ==
    LET lx == LexemesOf(L, a, pos, txt, env, TRUE) IN
    IF lx = <<>> THEN st
    ELSE [st EXCEPT !.out = Append(@, [pop |-> st.old - st.low,
                                       push |-> SubSeq(st.stack, st.low + 1, Len(st.stack)),
                                       lexemes |-> lx]),
                    !.old = Len(st.stack), !.low = Len(st.stack)]
PopN(st, n) ==
    LET d == Len(st.stack) - n IN
    [st EXCEPT !.stack = SubSeq(@, 1, d), !.low = Min2(@, d)]
PushL(st, ls) == [st EXCEPT !.stack = @ \o ls]

(* follow target tg after text txt (<<>>: no text) with action a at pos     *)
Follow(L, st, text, tg0, a, pos, txt, env) ==
    LET tg == [tg0 EXCEPT !.pop = Min2(@, Len(st.stack) - 1)] IN
    IF txt # <<>>
    THEN LET move(s) == PushL(PopN(s, tg.pop), tg.push)
             early == tg.push # <<>> /\ L.lex[tg.push[Len(tg.push)][1]].consume
             st2 == IF early THEN Emit(L, move(st), a, pos, txt, env)
                    ELSE move(Emit(L, st, a, pos, txt, env))
         IN [st2 EXCEPT !.pos = pos + Len(txt), !.must = FALSE, !.circ = {}]
    ELSE LET st1 == PopN(st, tg.pop)
             key == <<pos, Len(st1.stack), tg.push>>
             again == key \in st.circ
             stuck == again /\ (tg.push # <<>> \/ tg.pop = 0)
         IN IF stuck /\ pos >= Len(text)
            THEN [st1 EXCEPT !.done = TRUE]   \* going round at the end of the text
            ELSE LET st2 == PushL(st1, tg.push) IN
                 [st2 EXCEPT !.pos = IF stuck THEN pos + 1 ELSE pos, !.must = FALSE,
                             !.circ = IF again THEN {} ELSE @ \cup {key}]

NoEnv(arg, text) == [arg |-> arg, text |-> text, caps |-> <<>>, full |-> <<>>]

LexStep(L, text, st) ==
    LET self == st.stack[Len(st.stack)]
        lx == L.lex[self[1]]
        rs == PatRules(L, self[1], self[2])
        das == RulesOfKind(L, self[1], "da")
        dts == RulesOfKind(L, self[1], "dt")
        hasDa == das # <<>>
        dt == IF dts = <<>> THEN NoTarget
              ELSE MakeTarget(self, Items(dts[Len(dts)].items, NoEnv(self[2], <<>>)))
        hasDt == ~ hasDa /\ dt # NoTarget
        m == IF hasDt THEN RuleAt(rs, 1, text, st.pos, lx.ic, FALSE)
             ELSE SearchFrom(rs, text, st.pos, lx.ic, st.must)
        gapTo == IF m.i = 0 THEN Len(text) ELSE m.s
        gap == Slice(text, st.pos, gapTo)
        st1 == IF hasDa /\ gap # <<>>
               THEN LET env == NoEnv(self[2], gap)
                        a == Items(das[Len(das)].items, env)[1]
                    IN Emit(L, st, a, st.pos, gap, env)
               ELSE st
    IN IF m.i = 0
       THEN IF hasDt /\ st.pos < Len(text)
            THEN Follow(L, st, text, dt, [t |-> "skip"], st.pos, <<>>, NoEnv(self[2], <<>>))
            ELSE [st1 EXCEPT !.done = TRUE]
       ELSE LET txt == Slice(text, m.s, m.e)
                env == [arg |-> self[2], text |-> txt, caps |-> m.c, full |-> text]
                its == Items(rs[m.i].items, env)
                tg == MakeTarget(self, Tail(its))
            IN IF tg # NoTarget THEN Follow(L, st1, text, tg, its[1], m.s, txt, env)
               ELSE IF hasDt /\ txt = <<>>  \* an empty match without target counts as no match
               THEN IF st.pos < Len(text)
                    THEN Follow(L, st, text, dt, [t |-> "skip"], st.pos, <<>>, NoEnv(self[2], <<>>))
                    ELSE [st EXCEPT !.done = TRUE]
               ELSE LET st2 == IF txt # <<>> THEN Emit(L, st1, its[1], m.s, txt, env) ELSE st1
                    IN [st2 EXCEPT !.pos = m.e, !.must = (txt = <<>>)]

Run(L, text, st) == IF st.done THEN st ELSE Run(L, text, LexStep(L, text, st))

(* [out: events, stack: lexicons open at the end]                           *)
Lex(L, root, text) == Run(L, text, LexInit(<<root>>, 0))
============================================================================
