----------------------------- MODULE WordTrace ------------------------------
(* Trace: [ev]; line: [op, ws, pre, suf, p, ic, neg, subj, r, exc] with per *)
(* subject a result: words <<fullmatch, length matched, search start>>,     *)
(* chars <<match>>, tokens <<<<pos, end>>, ...>>.                           *)
EXTENDS Words, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
B2I(b) == IF b THEN 1 ELSE 0
MinOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Want(q, s) ==
    CASE q.op = "words" -> <<B2I(IsOneOf(q.ws, s)), LongestWord(q.ws, s, 0),
                            MinOf({p \in 0..Len(s) : LongestWord(q.ws, s, p) >= 0})>>
      [] q.op = "chars" -> <<B2I(Len(s) = 1 /\ (\E k \in 1..Len(q.ws) : q.ws[k] = s) # q.neg)>>
      [] q.op = "wtokens" -> WordTokens(q.ws, q.pre, q.suf, s, 0)
      [] q.op = "ptokens" -> PatTokens(q.p, q.ic, s)
Judge(q) ==
    IF q.exc # "" THEN <<"Exception", q.exc>>
    ELSE IF q.op = "to_string" THEN
         IF q.r[1] = Unfixed \/ q.r[1] = Fixed(q.p) THEN <<"", "">> ELSE <<"ToString", Fixed(q.p)>>
    ELSE LET B == {k \in 1..Len(q.subj) : q.r[k] # Want(q, q.subj[k])} IN
         IF B = {} THEN <<"", "">>
         ELSE LET k == CHOOSE k \in B : TRUE IN <<q.op, <<q.subj[k], q.r[k], Want(q, q.subj[k])>>>>
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               v == Judge(q)
           IN /\ bad' = v[1]
              /\ IF v[1] = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v[1], v[2], q.ws>>)
        /\ l' = l + 1 /\ t' = t
============================================================================
