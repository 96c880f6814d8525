----------------------------- MODULE MCValidate -----------------------------
(* All languages of N lexicons with default targets that either leave or    *)
(* enter contexts. If validation accepts all lexicons, then the lexer that  *)
(* follows default targets from any stack comes back in an earlier stack or *)
(* to an end: the number of contexts stays bounded.                         *)
EXTENDS Validate
CONSTANTS N, Depth
Nm(i) == CASE i = 1 -> "n1" [] i = 2 -> "n2" [] OTHER -> "n3"
Num(n) == [t |-> "num", n |-> n]
Lx(i) == [t |-> "lex", c |-> 0, n |-> Nm(i)]
Targets == {<<>>, <<Num(-1)>>, <<Num(-2)>>, <<Num(1)>>} \cup {<<Lx(i)>> : i \in 1..N} \cup {<<Lx(i), Lx(j)>> : i, j \in 1..N}
Rule(tg) == [k |-> "dtgt", pat |-> [t |-> "lit", s |-> <<>>], rep |-> "", acts |-> <<>>, tgt |-> tg]
Cs(f) == <<[base |-> 0, defs |-> <<>> \o [i \in 1..N |-> [name |-> Nm(i), rules |-> IF f[i] = <<>> THEN <<>> ELSE <<Rule(f[i])>>]]]>>
Stacks == UNION {[1..d -> 1..N] : d \in 1..Depth}
VARIABLES f, st, steps
vars == <<f, st, steps>>
Init == /\ f \in [1..N -> Targets]
        /\ Valid(Cs(f), 1)
        /\ st \in Stacks /\ steps = 0
(* the lexer: the first lexicon is never left *)
Step(s) == LET lx == s[Len(s)]  tg == f[lx] IN
           IF tg[1].t = "num"
           THEN IF tg[1].n > 0 THEN Append(s, lx) ELSE SubSeq(s, 1, IF Len(s) + tg[1].n < 1 THEN 1 ELSE Len(s) + tg[1].n)
           ELSE s \o [i \in 1..Len(tg) |-> CHOOSE k \in 1..N : Nm(k) = tg[i].n]
Next == /\ f[st[Len(st)]] # <<>>
        /\ st' = Step(st) /\ steps' = 0 /\ f' = f
(* no more contexts than a walk without repetition can make *)
Bounded == Len(st) <= Depth + 2 * N
=============================================================================
