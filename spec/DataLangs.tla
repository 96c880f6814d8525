----------------------------- MODULE DataLangs -----------------------------
(* The values that texts in the bundled data languages stand for: JSON, CSV *)
(* (RFC 4180), INI and numerals. Texts are sequences of code points. A value*)
(* is a record [k, s, xs]: k is the kind, s a sequence of integers, xs a    *)
(* sequence of members [n: name, v: value].                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Val(k, s, xs) == [k |-> k, s |-> s, xs |-> xs]
Null == Val("null", <<>>, <<>>)
Str(s) == Val("str", s, <<>>)
List(vs) == Val("list", <<>>, <<>> \o [i \in 1..Len(vs) |-> [n |-> <<>>, v |-> vs[i]]])
Map(xs) == Val("map", <<>>, xs)

(* two values are the same; the order of the members of a map is of no      *)
(* concern, and the last of the members with the same name counts           *)
LastNamed(xs, n) == LET S == {i \in 1..Len(xs) : xs[i].n = n} IN xs[CHOOSE i \in S : \A j \in S : j <= i].v
Names(xs) == {xs[i].n : i \in 1..Len(xs)}
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.k = b.k /\ a.s = b.s
    /\ IF a.k = "map" THEN Names(a.xs) = Names(b.xs) /\ \A n \in Names(a.xs) : Same(LastNamed(a.xs, n), LastNamed(b.xs, n))
       ELSE Len(a.xs) = Len(b.xs) /\ \A i \in 1..Len(a.xs) : Same(a.xs[i].v, b.xs[i].v)

IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Hex4(x, i) == HexVal(x[i]) * 4096 + HexVal(x[i+1]) * 256 + HexVal(x[i+2]) * 16 + HexVal(x[i+3])
At(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
---------------------------------- (* JSON *) --------------------------------
IsWs(c) == c \in {32, 9, 10, 13}
RECURSIVE Ws(_, _), DigitsTo(_, _), StrEnd(_, _)
Ws(x, i) == IF i <= Len(x) /\ IsWs(x[i]) THEN Ws(x, i + 1) ELSE i
DigitsTo(x, i) == IF i <= Len(x) /\ IsDigit(x[i]) THEN DigitsTo(x, i + 1) ELSE i
(* the index of the closing quote                                           *)
StrEnd(x, i) == IF x[i] = 34 THEN i ELSE IF x[i] = 92 THEN StrEnd(x, i + 2) ELSE StrEnd(x, i + 1)
EscChar(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c) == c >= 56320 /\ c <= 57343
(* the characters of the string contents from i to before e                 *)
RECURSIVE StrChars(_, _, _)
StrChars(x, i, e) ==
    IF i >= e THEN <<>>
    ELSE IF x[i] # 92 THEN <<x[i]>> \o StrChars(x, i + 1, e)
    ELSE IF x[i+1] # 117 THEN <<EscChar(x[i+1])>> \o StrChars(x, i + 2, e)
    ELSE LET h == Hex4(x, i + 2) IN
         IF IsHigh(h) /\ i + 11 < e /\ x[i+6] = 92 /\ x[i+7] = 117 /\ IsLow(Hex4(x, i + 8))
         THEN <<65536 + (h - 55296) * 1024 + Hex4(x, i + 8) - 56320>> \o StrChars(x, i + 12, e)
         ELSE <<h>> \o StrChars(x, i + 6, e)

(* a number is the sequence sign, exponent, digits: no zeros at both ends   *)
RECURSIVE StripLead(_), StripTrail(_), ToInt(_, _)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
StripTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
ToInt(d, k) == IF k = 0 THEN 0 ELSE ToInt(d, k - 1) * 10 + d[k]
DigitSeq(x, a, b) == <<>> \o [i \in 1..(b - a) |-> x[a + i - 1] - 48]
NumOf(neg, ds, e) ==
    LET d == StripLead(ds)
        q == StripTrail(d)
    IN Val("num", IF d = <<>> THEN <<0, 0>> ELSE <<neg, e + Len(d) - Len(q)>> \o q, <<>>)
JNumber(x, i) ==
    LET neg == IF x[i] = 45 THEN 1 ELSE 0
        a == i + neg
        b == DigitsTo(x, a)
        frac == At(x, b) = 46
        c == IF frac THEN DigitsTo(x, b + 1) ELSE b
        hasE == At(x, c) \in {69, 101}
        sgn == hasE /\ At(x, c + 1) \in {43, 45}
        ea == IF sgn THEN c + 2 ELSE c + 1
        eb == IF hasE THEN DigitsTo(x, ea) ELSE c
        ed == IF hasE THEN DigitSeq(x, ea, eb) ELSE <<>>
        ex == IF hasE THEN ToInt(ed, Len(ed)) * (IF sgn /\ x[c + 1] = 45 THEN -1 ELSE 1) ELSE 0
        fd == IF frac THEN DigitSeq(x, b + 1, c) ELSE <<>>
    IN [v |-> NumOf(neg, DigitSeq(x, a, b) \o fd, ex - Len(fd)), i |-> eb]

(* [v: value, i: index after it]                                            *)
RECURSIVE JValue(_, _), JItems(_, _), JMembers(_, _)
JValue(x, i0) ==
    LET i == Ws(x, i0)
        c == x[i]
    IN CASE c = 34 -> LET e == StrEnd(x, i + 1) IN [v |-> Str(StrChars(x, i + 1, e)), i |-> e + 1]
         [] c = 91 -> IF x[Ws(x, i + 1)] = 93 THEN [v |-> List(<<>>), i |-> Ws(x, i + 1) + 1]
                      ELSE LET r == JItems(x, i + 1) IN [v |-> List(r.vs), i |-> r.i]
         [] c = 123 -> IF x[Ws(x, i + 1)] = 125 THEN [v |-> Map(<<>>), i |-> Ws(x, i + 1) + 1]
                       ELSE LET r == JMembers(x, i + 1) IN [v |-> Map(r.vs), i |-> r.i]
         [] c = 116 -> [v |-> Val("true", <<>>, <<>>), i |-> i + 4]
         [] c = 102 -> [v |-> Val("false", <<>>, <<>>), i |-> i + 5]
         [] c = 110 -> [v |-> Null, i |-> i + 4]
         [] OTHER -> JNumber(x, i)
JItems(x, i) ==
    LET r == JValue(x, i)
        j == Ws(x, r.i)
    IN IF x[j] = 93 THEN [vs |-> <<r.v>>, i |-> j + 1]
       ELSE LET q == JItems(x, j + 1) IN [vs |-> <<r.v>> \o q.vs, i |-> q.i]
JMembers(x, i) ==
    LET key == JValue(x, i)
        r == JValue(x, Ws(x, key.i) + 1)
        j == Ws(x, r.i)
        m == [n |-> key.v.s, v |-> r.v]
    IN IF x[j] = 125 THEN [vs |-> <<m>>, i |-> j + 1]
       ELSE LET q == JMembers(x, j + 1) IN [vs |-> <<m>> \o q.vs, i |-> q.i]
JsonValue(x) == JValue(x, 1).v
---------------------------------- (* CSV *) ---------------------------------
(* Fields are separated by commas, records by newlines. A quoted field may  *)
(* have blanks around the quotes; "" in it is a quote. An empty field is    *)
(* None, an empty quoted field the empty string.                            *)
RECURSIVE QuoteEnd(_, _), Undouble(_), PlainEnd(_, _), Blank(_, _)
QuoteEnd(x, i) == IF x[i] # 34 THEN QuoteEnd(x, i + 1) ELSE IF At(x, i + 1) = 34 THEN QuoteEnd(x, i + 2) ELSE i
Undouble(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 34 THEN <<34>> \o Undouble(SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o Undouble(Tail(s))
PlainEnd(x, i) == IF i > Len(x) \/ x[i] \in {44, 10} THEN i ELSE PlainEnd(x, i + 1)
Blank(x, i) == IF At(x, i) \in {32, 9} THEN Blank(x, i + 1) ELSE i
(* [v, i: index of the separator after the field]                           *)
CField(x, i) ==
    LET b == Blank(x, i) IN
    IF At(x, b) = 34
    THEN LET e == QuoteEnd(x, b + 1) IN [v |-> Str(Undouble(SubSeq(x, b + 1, e - 1))), i |-> Blank(x, e + 1)]
    ELSE LET e == PlainEnd(x, i) IN [v |-> IF e = i THEN Null ELSE Str(SubSeq(x, i, e - 1)), i |-> e]
RECURSIVE CRecord(_, _), CRecords(_, _)
CRecord(x, i) ==
    LET f == CField(x, i) IN
    IF At(x, f.i) = 44 THEN LET r == CRecord(x, f.i + 1) IN [vs |-> <<f.v>> \o r.vs, i |-> r.i]
    ELSE [vs |-> <<f.v>>, i |-> f.i + 1]
CRecords(x, i) ==
    IF i > Len(x) THEN <<>> ELSE LET r == CRecord(x, i) IN <<List(r.vs)>> \o CRecords(x, r.i)
Csv(x) == List(CRecords(x, 1))
---------------------------------- (* INI *) ---------------------------------
(* Lines [k: "sec", "kv", "other", a: section or key, b: value as written,  *)
(* has: there is a value]. nl is what an escaped newline stands for.        *)
IniEsc(c, nl) == CASE c = 48 -> <<0>> [] c = 97 -> <<7>> [] c = 98 -> <<8>> [] c = 116 -> <<9>>
                   [] c = 114 -> <<13>> [] c = 110 -> <<10>> [] c = 10 -> nl [] OTHER -> <<c>>
RECURSIVE IniText(_, _)
IniText(s, nl) ==
    IF s = <<>> THEN <<>>
    ELSE IF s[1] # 92 THEN <<s[1]>> \o IniText(Tail(s), nl)
    ELSE IF s[2] \in {88, 120} THEN <<Hex4(s, 3)>> \o IniText(SubSeq(s, 7, Len(s)), nl)
    ELSE IniEsc(s[2], nl) \o IniText(SubSeq(s, 3, Len(s)), nl)
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s
            ELSE IF s[1] \in {32, 9} THEN Strip(Tail(s))
            ELSE IF s[Len(s)] \in {32, 9} THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* the name of the part before the first section                            *)
TopName == <<-1>>
(* vals: what stands for a value of blanks only                             *)
IniValue(ln, nl, blank) ==
    IF ~ ln.has THEN Null
    ELSE IF Strip(ln.b) = <<>> THEN (IF ln.b = <<>> THEN Null ELSE blank) ELSE Str(IniText(Strip(ln.b), nl))
Ini(lines, nl, blank) ==
    LET F[i \in 0..Len(lines)] ==
            IF i = 0 THEN << [n |-> TopName, v |-> Map(<<>>)] >>
            ELSE LET p == F[i-1]
                     ln == lines[i]
                     k == Len(p)
                 IN CASE ln.k = "sec" -> Append(p, [n |-> Strip(ln.a), v |-> Map(<<>>)])
                      [] ln.k = "kv" -> [p EXCEPT ![k].v.xs = Append(@, [n |-> IniText(Strip(ln.a), nl), v |-> IniValue(ln, nl, blank)])]
                      [] OTHER -> p
        all == F[Len(lines)]
    IN Map(IF all[1].v.xs = <<>> THEN Tail(all) ELSE all)
IniMeanings(lines) == {Ini(lines, nl, blank) : nl \in {<<>>, <<10>>}, blank \in {Null, Str(<<>>)}}
-------------------------------- (* Numerals *) ------------------------------
Upto19 == [
  en |-> <<"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve", "thirteen",
           "fourteen", "fifteen", "sixteen", "seventeen", "eighteen", "nineteen">>,
  nl |-> <<"een", "twee", "drie", "vier", "vijf", "zes", "zeven", "acht", "negen", "tien", "elf", "twaalf", "dertien",
           "veertien", "vijftien", "zestien", "zeventien", "achttien", "negentien">>,
  de |-> <<"ein", "zwei", "drei", "vier", "fuenf", "sechs", "sieben", "acht", "neun", "zehn", "elf", "zwoelf", "dreizehn",
           "vierzehn", "fuenfzehn", "sechzehn", "siebzehn", "achtzehn", "neunzehn">>,
  fr |-> <<"un", "deux", "trois", "quatre", "cinq", "six", "sept", "huit", "neuf", "dix", "onze", "douze", "treize",
           "quatorze", "quinze", "seize", "dix-sept", "dix-huit", "dix-neuf">>]
Tens == [
  en |-> <<"twenty", "thirty", "forty", "fifty", "sixty", "seventy", "eighty", "ninety">>,
  nl |-> <<"twintig", "dertig", "veertig", "vijftig", "zestig", "zeventig", "tachtig", "negentig">>,
  de |-> <<"zwanzig", "dreissig", "vierzig", "fuenfzig", "sechzig", "siebzig", "achtzig", "neunzig">>,
  fr |-> <<"vingt", "trente", "quarante", "cinquante", "soixante", "", "quatre-vingt", "">>]
Other == [en |-> <<"zero", "hundred", "thousand", "million", "">>, nl |-> <<"nul", "honderd", "duizend", "miljoen", "en">>,
          de |-> <<"null", "hundert", "tausend", "million", "und">>, fr |-> <<"zero", "cent", "mille", "million", "et">>]
Find(s, w) == {i \in 1..Len(s) : s[i] = w}
WordVal(la, w) == IF Find(Upto19[la], w) # {} THEN CHOOSE i \in Find(Upto19[la], w) : TRUE
                  ELSE IF Find(Tens[la], w) # {} THEN 10 + 10 * CHOOSE i \in Find(Tens[la], w) : TRUE
                  ELSE 0        \* zero, and
RECURSIVE Sum(_, _)
Sum(la, ws) == IF ws = <<>> THEN 0 ELSE WordVal(la, ws[1]) + Sum(la, Tail(ws))
Part(la, ws, k, factor, F(_, _)) ==
    LET S == Find(ws, Other[la][k]) IN
    IF S = {} THEN F(la, ws)
    ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN
         factor * (IF i = 1 THEN 1 ELSE F(la, SubSeq(ws, 1, i - 1))) + F(la, SubSeq(ws, i + 1, Len(ws)))
V2(la, ws) == Part(la, ws, 2, 100, Sum)
V3(la, ws) == Part(la, ws, 3, 1000, V2)
V6(la, ws) == Part(la, ws, 4, 1000000, V3)
============================================================================
