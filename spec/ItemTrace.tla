------------------------------ MODULE ItemTrace -----------------------------
(* Trace: [items: a rule, ev]; line: [env, outs: outcomes of all ways to    *)
(* evaluate the rule, vars: enumerations of variations, exc].        *)
(* Simple results: act, lex, int, skip, using, grp with xs.                 *)
EXTENDS Lexing, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
(* results in the notation of the trace: <<kind, number, argument, items>>  *)
RECURSIVE Simple(_, _)
Simple(x, env) ==
    CASE x.t = "act" -> <<"act", x.a, <<>>, <<>>>>
      [] x.t = "skip" -> <<"skip", 0, <<>>, <<>>>>
      [] x.t = "int" -> <<"int", x.n, <<>>, <<>>>>
      [] x.t = "lex" -> <<"lex", x.lx, x.arg, <<>>>>
      [] x.t = "using" -> <<"using", x.lx, x.arg, <<>>>>
      [] x.t = "grp" -> LET ys == Items(x.xs, env) IN
                        <<"grp", 0, <<>>, [k \in 1..Len(ys) |-> Simple(ys[k], env)]>>
Outcome(items, env) == LET ys == Items(items, env) IN <<>> \o [k \in 1..Len(ys) |-> Simple(ys[k], env)]

(* does a variation stand for the outcome? a group stands for its members,  *)
(* a delegate for its lexicon, lexicons without regard of the argument      *)
RECURSIVE Fits(_, _)
Fits(v, o) ==
    CASE o[1] = "int" -> v[1] = "number" \/ (v[1] = "int" /\ v[2] = o[2])
      [] o[1] \in {"lex", "using"} -> v[1] = "lex" /\ v[2] = o[2]
      [] o[1] = "grp" -> \E k \in 1..Len(o[4]) : Fits(v, o[4][k])
      [] OTHER -> v[1] = o[1] /\ v[2] = o[2]
Covered(vs, o) == \E k \in 1..Len(vs) : /\ Len(vs[k]) = Len(o)
                                        /\ \A i \in 1..Len(o) : Fits(vs[k][i], o[i])
(* every member of a group must appear                                      *)
Members(vs, o) == \A i \in 1..Len(o) : o[i][1] = "grp" =>
    \A m \in 1..Len(o[i][4]) : \E k \in 1..Len(vs) : Len(vs[k]) = Len(o) /\ Fits(vs[k][i], o[i][4][m])
Judge(tr, q) ==
    IF q.exc # "" THEN <<"Exception", q.exc>>
    ELSE LET o == Outcome(tr.items, q.env)
             B == {k \in 1..Len(q.outs) : q.outs[k] # o}
         IN IF B # {} THEN <<"Outcome", <<CHOOSE k \in B : TRUE, q.outs[CHOOSE k \in B : TRUE], o>>>>
            ELSE IF \E k \in 1..Len(q.vars) : q.vars[k] # <<>> /\ ~ (Covered(q.vars[k], o) /\ Members(q.vars[k], o)) THEN <<"Variations", o>>
            ELSE <<"", "">>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET v == Judge(Traces[t], Traces[t].ev[l + 1])
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2]>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
