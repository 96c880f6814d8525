------------------------------- MODULE DocIO --------------------------------
(* Files, encodings and documents. Texts are sequences of code points, data *)
(* are sequences of bytes. An encoding is one of Encodings; "" is none.     *)
EXTENDS Integers, Sequences, FiniteSets
Encodings == {"ascii", "latin1", "utf8", "utf8sig", "utf16", "utf16le", "utf16be", "utf32", "utf32le", "utf32be"}
Bad == <<-1>>
\* one code point to bytes
U8(c) == IF c < 128 THEN <<c>>
         ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
         ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
         ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Pair16(u, be) == IF be THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
U16(c, be) == IF c < 65536 THEN Pair16(c, be)
              ELSE Pair16(55296 + ((c - 65536) \div 1024), be) \o Pair16(56320 + ((c - 65536) % 1024), be)
U32(c, be) == LET hi == Pair16(c \div 65536, be) lo == Pair16(c % 65536, be) IN IF be THEN hi \o lo ELSE lo \o hi
EncodeChar(e, c) ==
    CASE e \in {"ascii", "latin1"} -> <<c>>
      [] e \in {"utf8", "utf8sig"} -> U8(c)
      [] e \in {"utf16", "utf16le"} -> U16(c, FALSE)
      [] e = "utf16be" -> U16(c, TRUE)
      [] e \in {"utf32", "utf32le"} -> U32(c, FALSE)
      [] e = "utf32be" -> U32(c, TRUE)
Limit(e) == IF e = "ascii" THEN 128 ELSE IF e = "latin1" THEN 256 ELSE 1114112
CanEncode(e, s) == \A k \in 1..Len(s) : s[k] < Limit(e) /\ s[k] \notin 55296..57343
Mark(e) == CASE e = "utf8sig" -> <<239, 187, 191>> [] e = "utf16" -> <<255, 254>>
             [] e = "utf32" -> <<255, 254, 0, 0>> [] OTHER -> <<>>
RECURSIVE EncodeFrom(_, _, _, _)
\* divide and conquer, to keep the recursion shallow
EncodeFrom(e, s, a, b) ==
    IF a > b THEN <<>> ELSE IF a = b THEN EncodeChar(e, s[a])
    ELSE LET m == (a + b) \div 2 IN EncodeFrom(e, s, a, m) \o EncodeFrom(e, s, m + 1, b)
Encode(e, s) == Mark(e) \o EncodeFrom(e, s, 1, Len(s))
----------------------------------------------------------------------------
Cont(d, k) == k <= Len(d) /\ d[k] \in 128..191
\* [c, n]: the code point at k and its number of bytes; n = 0 if invalid
Char8(d, k) ==
    LET b == d[k] no == [c |-> 0, n |-> 0]
        ok(c, n, lo) == IF c >= lo /\ c < 1114112 /\ c \notin 55296..57343 THEN [c |-> c, n |-> n] ELSE no
    IN IF b < 128 THEN [c |-> b, n |-> 1]
       ELSE IF b \in 192..223 /\ Cont(d, k + 1) THEN ok((b - 192) * 64 + d[k + 1] - 128, 2, 128)
       ELSE IF b \in 224..239 /\ Cont(d, k + 1) /\ Cont(d, k + 2)
            THEN ok((b - 224) * 4096 + (d[k + 1] - 128) * 64 + d[k + 2] - 128, 3, 2048)
       ELSE IF b \in 240..247 /\ Cont(d, k + 1) /\ Cont(d, k + 2) /\ Cont(d, k + 3)
            THEN ok((b - 240) * 262144 + (d[k + 1] - 128) * 4096 + (d[k + 2] - 128) * 64 + d[k + 3] - 128, 4, 65536)
       ELSE no
Word(d, k, be) == IF be THEN d[k] * 256 + d[k + 1] ELSE d[k + 1] * 256 + d[k]
Char16(d, k, be) ==
    LET no == [c |-> 0, n |-> 0] IN
    IF k + 1 > Len(d) THEN no
    ELSE LET u == Word(d, k, be) IN
         IF u \notin 55296..57343 THEN [c |-> u, n |-> 2]
         ELSE IF u > 56319 \/ k + 3 > Len(d) THEN no
         ELSE LET v == Word(d, k + 2, be) IN
              IF v \in 56320..57343 THEN [c |-> 65536 + (u - 55296) * 1024 + v - 56320, n |-> 4] ELSE no
Char32(d, k, be) ==
    LET no == [c |-> 0, n |-> 0] IN
    IF k + 3 > Len(d) THEN no
    ELSE LET hi == IF be THEN Word(d, k, be) ELSE Word(d, k + 2, be)
             lo == IF be THEN Word(d, k + 2, be) ELSE Word(d, k, be)
             c == hi * 65536 + lo
         IN IF hi > 16 \/ c \in 55296..57343 THEN no ELSE [c |-> c, n |-> 4]
CharAt(e, d, k) ==
    CASE e = "ascii" -> IF d[k] < 128 THEN [c |-> d[k], n |-> 1] ELSE [c |-> 0, n |-> 0]
      [] e = "latin1" -> [c |-> d[k], n |-> 1]
      [] e \in {"utf8", "utf8sig"} -> Char8(d, k)
      [] e \in {"utf16", "utf16le"} -> Char16(d, k, FALSE)
      [] e = "utf16be" -> Char16(d, k, TRUE)
      [] e \in {"utf32", "utf32le"} -> Char32(d, k, FALSE)
      [] e = "utf32be" -> Char32(d, k, TRUE)
\* the positions where a character starts (assuming that the data is valid)
StartsChar(e, d, k) ==
    CASE e \in {"ascii", "latin1"} -> TRUE
      [] e \in {"utf8", "utf8sig"} -> d[k] \notin 128..191
      [] e \in {"utf16", "utf16le", "utf16be"} -> k % 2 = 1 /\ d[IF e = "utf16be" THEN k ELSE IF k < Len(d) THEN k + 1 ELSE k] \notin 220..223
      [] OTHER -> k % 4 = 1
Decode(e, d) ==
    LET st == SelectSeq([k \in 1..Len(d) |-> k], LAMBDA k : StartsChar(e, d, k))
        ch == <<>> \o [i \in 1..Len(st) |-> CharAt(e, d, st[i])]
        ok == /\ d # <<>> => st # <<>> /\ st[1] = 1
              /\ \A i \in 1..Len(st) : ch[i].n > 0 /\ st[i] + ch[i].n = (IF i = Len(st) THEN Len(d) + 1 ELSE st[i + 1])
    IN IF ok THEN <<>> \o [i \in 1..Len(st) |-> ch[i].c] ELSE Bad
----------------------------------------------------------------------------
\* a byte-order mark: [e, n]
Begins(d, m) == Len(m) <= Len(d) /\ SubSeq(d, 1, Len(m)) = m
BomOf(d) == IF Begins(d, <<239, 187, 191>>) THEN [e |-> "utf8", n |-> 3]
            ELSE IF Begins(d, <<255, 254, 0, 0>>) THEN [e |-> "utf32le", n |-> 4]
            ELSE IF Begins(d, <<0, 0, 254, 255>>) THEN [e |-> "utf32be", n |-> 4]
            ELSE IF Begins(d, <<255, 254>>) THEN [e |-> "utf16le", n |-> 2]
            ELSE IF Begins(d, <<254, 255>>) THEN [e |-> "utf16be", n |-> 2]
            ELSE [e |-> "", n |-> 0]
First4(a, b, c, d) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE IF c # "" THEN c ELSE d
\* the encoding to remember for data with a mark: one that writes a mark again
Marked(e) == CASE e \in {"utf16le", "utf16be"} -> "utf16" [] e \in {"utf32le", "utf32be"} -> "utf32" [] OTHER -> e
----------------------------------------------------------------------------
\* newline: "none" (default), "", "lf", "cr" or "crlf"
ReadNl(s, nl) ==
    IF nl # "none" \/ \A k \in 1..Len(s) : s[k] # 13 THEN s
    ELSE LET st == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : ~(s[k] = 10 /\ k > 1 /\ s[k - 1] = 13))
         IN <<>> \o [i \in 1..Len(st) |-> IF s[st[i]] = 13 THEN 10 ELSE s[st[i]]]
RECURSIVE ToNl(_, _, _, _)
ToNl(s, x, a, b) ==
    IF a > b THEN <<>> ELSE IF a = b THEN (IF s[a] = 10 THEN x ELSE <<s[a]>>)
    ELSE LET m == (a + b) \div 2 IN ToNl(s, x, a, m) \o ToNl(s, x, m + 1, b)
WriteNl(s, nl) == IF nl = "cr" THEN ToNl(s, <<13>>, 1, Len(s)) ELSE IF nl = "crlf" THEN ToNl(s, <<13, 10>>, 1, Len(s)) ELSE s
----------------------------------------------------------------------------
\* loading data: mention is the encoding that is mentioned in it, dflt that of the language
ReadEnc(d, mention, given, dflt) == First4(BomOf(d).e, mention, given, IF dflt = "" THEN "utf8" ELSE dflt)
LoadText(d, mention, given, dflt, nl) ==
    LET b == BomOf(d)
        e == ReadEnc(d, mention, given, dflt)
        s == Decode(e, SubSeq(d, b.n + 1, Len(d)))
        \* encodings that are defined to start with a mark
        nomark == b.n = 0 /\ d # <<>> /\ e \in {"utf16", "utf32"}
    IN IF s = Bad \/ nomark THEN Bad ELSE ReadNl(s, nl)
LoadEnc(d, mention, given) == First4(given, mention, Marked(BomOf(d).e), "")
SaveEnc(doc, mention, given, dflt) == First4(given, doc, mention, IF dflt = "" THEN "utf8" ELSE dflt)
SaveData(s, e, nl) == Encode(e, WriteNl(s, nl))
============================================================================
