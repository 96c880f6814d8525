----------------------------- MODULE BlockTrace -----------------------------
(* Trace: [init, sep, ev]; line: [op, a, b, x, r, exc]. "edit" replaces the *)
(* text from a to b by x; the other operations are questions.               *)
EXTENDS Blocks, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
VARIABLES t, l, bad, text
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = "" /\ text = Traces[t].init
B2I(b) == IF b THEN 1 ELSE 0
(* everything to be said about a block *)
Full(bs, x) == <<x[1], x[2], x[3], x[3] - x[2], B2I(x[1] = 0), B2I(x[1] = Len(bs) - 1)>>
Fulls(bs, s) == [k \in 1..Len(s) |-> Full(bs, s[k])]
Texts(s) == [k \in 1..Len(s) |-> Slice(text, s[k][2], s[k][3])]
Answer(sep, q) ==
    LET bs == Split(text, sep) IN
    CASE q.op = "edit" -> <<>>
      [] q.op = "find_block" -> <<Full(bs, BlockAt(bs, q.a))>>
      [] q.op = "start_end" -> <<BlockAt(bs, q.a)[2], BlockAt(bs, q.a)[3]>>
      [] q.op = "by_number" -> Fulls(bs, ByNumber(bs, q.a))
      [] q.op = "count" -> <<Len(bs)>>
      [] q.op \in {"blocks", "cursor_blocks"} -> Fulls(bs, BlocksFrom(bs, q.a, q.b))
      [] q.op = "texts" -> Texts(BlocksFrom(bs, q.a, q.b))
      [] q.op = "backward" -> Fulls(bs, Reverse_(SelectSeq(bs, LAMBDA x : x[1] <= BlockAt(bs, q.a)[1])))
      [] q.op = "zigzag" -> LET n == BlockAt(bs, q.a)[1] IN
             IF n = 0 THEN Fulls(bs, ByNumber(bs, 1)) ELSE Fulls(bs, ByNumber(bs, n))
      [] q.op = "compare" -> LET x == BlockAt(bs, q.a) y == BlockAt(bs, q.b) IN
             <<B2I(x = y), B2I(x # y), B2I(x[1] < y[1]), B2I(x[1] <= y[1]), B2I(x[1] > y[1]), B2I(x[1] >= y[1])>>
      [] q.op = "cursor_block" -> <<Full(bs, BlockAt(bs, q.a))>>
      [] q.op = "cursor_text" -> <<Slice(text, q.a, RealEnd(text, <<q.a, q.b>>))>>
      [] q.op = "selection" -> LET e == IF q.b = NONE THEN Len(text) ELSE q.b IN <<q.a, e, B2I(q.a < e)>>
      [] OTHER -> Moved(text, sep, <<q.a, q.b>>, q.op, q.x)
Next == /\ bad = "" /\ l < Len(Traces[t].ev)
        /\ LET q == Traces[t].ev[l + 1]
               want == Answer(Traces[t].sep, q)
               v == IF q.exc # "" THEN "Exception" ELSE IF q.r # want THEN q.op ELSE ""
           IN /\ bad' = v
              /\ IF v = "" THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, v, text, q, want>>)
              /\ text' = IF q.op = "edit" THEN Splice(text, q.a, q.b, q.x) ELSE text
        /\ l' = l + 1 /\ t' = t
============================================================================
