------------------------------- MODULE Blocks -------------------------------
(* The blocks (lines) of a text and the cursor movements that depend on     *)
(* them. A block is <<number, pos, end>>; sep is the block separator.       *)
EXTENDS TextOps
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(t, sep, p, n) ==
    LET e == Find(t, sep, p) IN
    IF e = -1 THEN <<<<n, p, Len(t)>>>>
    ELSE <<<<n, p, e>>>> \o SplitFrom(t, sep, e + Len(sep), n + 1)
Split(t, sep) == SplitFrom(t, sep, 0, 0)
(* the block of a position: positions behind the text are in the last block *)
BlockAt(bs, p) ==
    LET X == {k \in 1..Len(bs) : bs[k][2] <= p} IN bs[CHOOSE k \in X : \A j \in X : j <= k]
ByNumber(bs, n) ==
    IF n >= 0 THEN IF n < Len(bs) THEN <<bs[n + 1]>> ELSE <<>>
    ELSE IF Len(bs) + n >= 0 THEN <<bs[Len(bs) + n + 1]>> ELSE <<>>
(* blocks from position s that start before e (the first one always)        *)
BlocksFrom(bs, s, e) ==
    LET b == BlockAt(bs, s) IN
    SelectSeq(bs, LAMBDA x : x[1] = b[1] \/ (x[1] > b[1] /\ (e = NONE \/ x[2] < e)))
Reverse_(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
(* what Python's str.isspace() accepts                                      *)
Space == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
InChars(ch, chars) == IF chars = <<>> THEN ch \in Space ELSE \E k \in 1..Len(chars) : chars[k] = ch
RECURSIVE SkipR(_, _, _, _), SkipL(_, _, _, _)
SkipR(t, p, e, chars) == IF p < e /\ InChars(t[p + 1], chars) THEN SkipR(t, p + 1, e, chars) ELSE p
SkipL(t, p, e, chars) == IF p < e /\ InChars(t[e], chars) THEN SkipL(t, p, e - 1, chars) ELSE e
(* a cursor <<pos, end>> (end NONE: the end of the text)                    *)
RealEnd(t, c) == IF c[2] = NONE THEN Len(t) ELSE Min2(c[2], Len(t))
LStrip(t, c, chars) == <<SkipR(t, c[1], RealEnd(t, c), chars), c[2]>>
RStrip(t, c, chars) ==
    LET e == SkipL(t, c[1], RealEnd(t, c), chars)
    IN IF e = RealEnd(t, c) THEN c ELSE <<c[1], e>>
Moved(t, sep, c, op, chars) ==
    LET bs == Split(t, sep)
        a == BlockAt(bs, c[1])
        z == IF c[2] = NONE THEN a ELSE BlockAt(bs, c[2])
    IN CASE op = "move_start_of_block" -> <<a[2], a[2]>>
         [] op = "move_end_of_block" -> <<a[3], a[3]>>
         [] op = "select_start_of_block" -> <<a[2], c[2]>>
         [] op = "select_end_of_block" -> IF c[2] = NONE THEN c ELSE <<c[1], z[3]>>
         [] op = "select_all" -> <<0, NONE>>
         [] op = "select_none" -> <<c[1], c[1]>>
         [] op = "lstrip" -> LStrip(t, c, chars)
         [] op = "rstrip" -> RStrip(t, c, chars)
         [] op = "strip" -> LStrip(t, RStrip(t, c, chars), chars)
============================================================================
