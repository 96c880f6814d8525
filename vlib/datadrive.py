"""Texts in the bundled data languages (JSON, CSV, INI, numerals), transformed by their own transforms."""
import decimal
import json
import random

from .core import codes, cpu_limit, Hang, where
from .lexdrive import failures


def enc(v):
    """A Python value as a value of DataLangs.tla."""
    def val(k, s=(), xs=()):
        return {"k": k, "s": list(s), "xs": list(xs)}
    if v is None:
        return val("null")
    if v is True or v is False:
        return val("true" if v else "false")
    if isinstance(v, str):
        return val("str", codes(v))
    if isinstance(v, (int, float)):
        d = decimal.Decimal(v) if isinstance(v, int) else decimal.Decimal(repr(v))
        sign, digits, exp = d.as_tuple()
        digits = list(digits)
        while digits and digits[-1] == 0:
            digits.pop()
            exp += 1
        while digits and digits[0] == 0:
            digits.pop(0)
        return val("num", [sign, exp, *digits] if digits else [0, 0])
    if isinstance(v, (list, tuple)):
        return val("list", (), [{"n": [], "v": enc(x)} for x in v])
    if isinstance(v, dict):
        return val("map", (), [{"n": [-1] if k is None else codes(k), "v": enc(x)} for k, x in v.items()])
    return val("?" + type(v).__name__)


def ints(v):
    """A list of numbers as exact integers."""
    return {"k": "list" if isinstance(v, list) else "?", "s": [],
            "xs": [{"n": [], "v": {"k": "int" if type(x) is int else "?", "s": [x] if type(x) is int else [], "xs": []}} for x in v]}


class Json:
    root = "parce.lang.json.Json"

    def __init__(self, rng):
        self.rng = rng

    def ws(self):
        return self.rng.choice(["", "", "", " ", "\n", "\t ", "\r\n"])

    def string(self):
        r = self.rng
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 8])):
            x = r.random()
            if x < .45:
                out.append(r.choice("ab1 {}[]:,'é€\U0001d11e\u2028true/-.e"))
            elif x < .7:
                out.append("\\" + r.choice('bfnrt"/\\'))
            elif x < .9:
                h = "%04x" % r.choice([0, 0x22, 0x5c, 0x41, 0xe9, 0x20ac, 0xffff, 0xd7ff, 0xe000])
                out.append("\\u" + r.choice([h, h.upper()]))
            elif x < .97:
                out.append("\\ud%x%02x\\ud%x%02x" % (r.randint(8, 11), r.randint(0, 255), r.randint(12, 15), r.randint(0, 255)))
            else:
                out.append("\\u%04x" % r.choice([0xd834, 0xdd1e]))
        return '"' + "".join(out) + '"'

    def number(self):
        r = self.rng
        s = r.choice(["", "", "-"])
        if r.random() < .3:
            return s + r.choice(["0", str(r.randint(1, 10 ** r.choice([1, 3, 17, 25])))])
        s += r.choice(["0", str(r.randint(1, 9999))])
        if r.random() < .6:
            s += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 5)))
        if r.random() < .5:
            s += r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["", "0"]) + str(r.randint(0, 9))
        return s

    def value(self, d=0):
        r = self.rng
        x = r.random()
        if d > 3 or x < .2:
            return r.choice([self.string, self.number, lambda: r.choice(["true", "false", "null"])])()
        if x < .35:
            return self.string()
        if x < .5:
            return self.number()
        ws = self.ws
        n = r.choice([0, 1, 1, 2, 3])
        if x < .75:
            return "[" + ws() + ",".join(ws() + self.value(d + 1) + ws() for _ in range(n)) + "]"
        return "{" + ws() + ",".join(ws() + self.string() + ws() + ":" + ws() + self.value(d + 1) + ws() for _ in range(n)) + "}"

    def text(self):
        s = self.ws() + self.value() + self.ws()
        json.loads(s, strict=False)      # the generator makes valid texts
        return {"text": s}


class Csv:
    root = "parce.lang.csv.Csv"

    def __init__(self, rng):
        self.rng = rng

    def field(self, alone):
        r = self.rng
        x = r.random()
        if x < .35:
            return "".join(r.choice("ab1é '.-\t") for _ in range(r.randint(1, 5)))
        if x < .5 and not alone:
            return ""
        b = r.choice(["", "", " ", "\t "])
        e = r.choice(["", "", " ", " \t"])
        return b + '"' + "".join(r.choice(['a', ' ', ',', '\n', '""', '""', 'é', ';']) for _ in range(r.choice([0, 1, 2, 5]))) + '"' + e

    def text(self):
        r = self.rng
        recs = []
        for _ in range(r.choice([1, 1, 2, 4])):
            n = r.choice([1, 2, 3, 4])
            recs.append(",".join(self.field(n == 1) for _ in range(n)))
        return {"text": "\n".join(recs) + r.choice(["", "\n"])}


class Ini:
    root = "parce.lang.ini.Ini"

    def __init__(self, rng):
        self.rng = rng

    def raw(self, key):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 2, 4])):
            x = r.random()
            if x < .6:
                out.append(r.choice(["a", "b", "ab c", " x", "é.", "1/2", "'q\"", "]", ","]))
            elif x < .85:
                out.append("\\" + r.choice(list("\\'\"0abtrn;#=:")))
            elif x < .95 or key:
                out.append("\\" + r.choice("xX") + r.choice(["0041", "00e9", "20AC", "0020"]))
            else:
                out.append("\\\n")
        return "".join(out)

    def text(self):
        r = self.rng
        lines, out, used = [], [], set()
        for _ in range(r.choice([1, 2, 4, 8])):
            x = r.random()
            ind = r.choice(["", "", " ", "\t"])
            if x < .2:
                name = r.choice(["s", "a b", "x.y", "É", "1"])
                if name in used:
                    continue
                used.add(name)
                a = r.choice(["", " "]) + name + r.choice(["", "\t "])
                lines.append({"k": "sec", "a": codes(a), "b": [], "has": False})
                out.append(ind + "[" + a + "]")
            elif x < .75:
                key = self.raw(True)
                if not key.strip(" \t"):
                    continue
                has = r.random() < .9
                b = r.choice(["", " ", "  "]) + (self.raw(False) + r.choice(["", "", " "]) if r.random() < .9 else "") if has else ""
                sp = r.choice(["", " "])
                com = r.choice(["", "", "", "; c=d [", "# x"])
                lines.append({"k": "kv", "a": codes(ind + key + sp), "b": codes(b), "has": bool(b)})
                out.append(ind + key + sp + "=" + b + com)
            else:
                lines.append({"k": "other", "a": [], "b": [], "has": False})
                out.append(r.choice(["", "; c = d", "# [x]", ";", "   "]))
        return {"text": "\n".join(out) + r.choice(["", "\n"]), "lines": lines}


class Numbers:
    LANGS = {"en": "English", "nl": "Nederlands", "de": "Deutsch", "fr": "Français"}
    EN = "one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen"
    NL = "een twee drie vier vijf zes zeven acht negen tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien"
    DE = "ein zwei drei vier fuenf sechs sieben acht neun zehn elf zwoelf dreizehn vierzehn fuenfzehn sechzehn siebzehn achtzehn neunzehn"
    FR = "un deux trois quatre cinq six sept huit neuf dix onze douze treize quatorze quinze seize dix-sept dix-huit dix-neuf"
    TENS = {"en": "twenty thirty forty fifty sixty seventy eighty ninety".split(),
            "nl": "twintig dertig veertig vijftig zestig zeventig tachtig negentig".split(),
            "de": "zwanzig dreissig vierzig fuenfzig sechzig siebzig achtzig neunzig".split(),
            "fr": ["vingt", "trente", "quarante", "cinquante", "soixante", "soixante", "quatre-vingt", "quatre-vingt"]}
    POW = {"en": ("zero", "hundred", "thousand", "million"), "nl": ("nul", "honderd", "duizend", "miljoen"),
           "de": ("null", "hundert", "tausend", "million"), "fr": ("zero", "cent", "mille", "million")}

    def __init__(self, rng, la):
        self.rng, self.la = rng, la
        self.root = "parce.lang.numbers." + self.LANGS[la]
        self.low = [""] + getattr(self, la.upper()).split()

    def below100(self, n):
        la = self.la
        if n < 20:
            return [self.low[n]] if n else []
        t, u = n // 10, n % 10
        ten = self.TENS[la][t - 2]
        if la == "fr":
            u += 10 if t in (7, 9) else 0
            if not u:
                return [ten]
            return [ten, "et", self.low[u]] if u in (1, 11) and t < 8 else [ten, self.low[u]]
        if not u:
            return [ten]
        return [ten, self.low[u]] if la == "en" else [self.low[u], "en" if la == "nl" else "und", ten]

    def spell(self, n):
        """Words of a number."""
        zero, hundred, thousand, million = self.POW[self.la]
        if n == 0:
            return [zero]
        out = []
        for f, w in ((1000000, million), (1000, thousand), (100, hundred)):
            k, n = divmod(n, f)
            if k:
                out += ([] if k == 1 and self.rng.random() < .5 else self.spell(k)) + [w]
        return out + self.below100(n)

    def text(self):
        r = self.rng
        def number():
            return r.choice([r.randint(0, 20), r.randint(0, 100), r.randint(0, 100), r.randint(0, 2000), r.randint(0, 10 ** 6 - 1),
                             r.randint(0, 5 * 10 ** 8), r.choice([1, 10, 100]) * 10 ** r.randint(0, 4)])
        ns = [number()]
        # another number can follow a number that cannot go on
        while r.random() < .3 and 11 <= ns[-1] % 100 <= 19 and len(ns) < 3:
            ns.append(r.choice([r.randint(2, 99), r.randint(2, 99) * 1000 + r.randint(0, 99)]))
        words = [self.spell(n) for n in ns]
        out = []
        for ws in words:
            s = ""
            for i, w in enumerate(ws):
                if self.la == "de":
                    w = w.replace("fuenf", "fünf").replace("zwoelf", "zwölf")
                    if w == "dreissig" and r.random() < .5:
                        w = "dreißig"
                    if w == "ein" and i == len(ws) - 1 and r.random() < .5:
                        w = "eins"
                    if w == "million" and r.random() < .3:
                        w = "millionen"
                if self.la == "fr":
                    if w in ("cent", "million") and r.random() < .3:
                        w += "s"
                    if w == "zero" and r.random() < .5:
                        w = "zéro"
                    if w == "quatre-vingt" and ws[i + 1:i + 2] in ([], ["mille"], ["million"]) and r.random() < .5:
                        w += "s"
                w = r.choice([w, w, w.upper(), w.capitalize()])
                if s:
                    s += " " if self.la == "fr" else r.choice(["", " "]) if self.la == "de" else r.choice(["", " ", "-", "  "]) if w.lower() not in ("en",) and ws[i - 1] != "en" else r.choice(["", " "])
                s += w
            out.append(s)
        return {"text": r.choice([" ", "\n", "  "]).join(out), "words": words}


KINDS = ["json", "json", "csv", "csv", "ini", "ini", "en", "nl", "de", "fr"]


def values(job):
    import importlib
    import parce
    from parce.transform import transform_text, transform_tree
    seed, quick, count, ntexts = job
    rng = random.Random(seed)
    res = []
    for i in range(count):
        la = KINDS[i % len(KINDS)]
        g = {"json": Json, "csv": Csv, "ini": Ini}[la](rng) if la in ("json", "csv", "ini") else Numbers(rng, la)
        mod, cls = g.root.rsplit(".", 1)
        root = getattr(importlib.import_module(mod), cls).root
        e = enc if la in ("json", "csv", "ini") else ints
        ev, texts = [], []
        for _ in range(ntexts):
            x = g.text()
            texts.append(x["text"])
            rec = {"text": codes(x["text"]), "lines": x.get("lines", []), "words": x.get("words", []), "tree": [], "txt": [], "exc": ""}
            try:
                with cpu_limit(5):
                    rec["tree"] = e(transform_tree(parce.root(root, x["text"])))
                    rec["txt"] = e(transform_text(root, x["text"]))
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"lang": la, "ev": ev, "case": {"lang": la, "texts": texts}})
        if failures(res):
            break
    return res
