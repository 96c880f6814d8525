"""Generated regular expressions and what they match."""
import itertools
import random
import re

from .core import codes, cpu_limit, Hang, where
from . import lang

SPECIAL = ".^$*+?{}[]\\|()-#&~ \n\t/<>=!,:'\"%@`é€"


def blank(op):
    return {"op": op, "ws": [], "pre": [], "suf": [], "p": lang.lit("a"), "ic": False, "neg": False, "subj": [], "r": [],
            "exc": "", "expr": ""}


def guarded(rec, fn):
    try:
        with cpu_limit(8):
            fn()
    except Hang:
        rec["exc"] = "Hang"
    except Exception as ex:
        rec["exc"] = where(ex)
    return rec


def words(ws, subjects, form=list):
    from parce import regex
    rec = blank("words")
    rec["ws"] = [codes(w) for w in ws]
    rec["subj"] = [codes(s) for s in subjects]
    def fn():
        rec["expr"] = e = regex.words2regexp(form(ws))
        full = re.compile(e)
        first = re.compile(r"(?:%s)" % e)
        for s in subjects:
            m = first.match(s)
            x = full.search(s)
            rec["r"].append([int(bool(full.fullmatch(s))), -1 if m is None else m.end(), -1 if x is None else x.start()])
    return guarded(rec, fn)


def chars(cs, neg, subjects, raw=False):
    from parce import rule
    rec = blank("chars")
    rec["ws"] = [codes(c) for c in cs]
    rec["neg"] = neg
    rec["subj"] = [codes(s) for s in subjects]
    def fn():
        rec["expr"] = e = rule.chars("".join(cs) if raw else list(cs), not neg)
        p = re.compile(e)
        rec["r"] = [[int(bool(p.fullmatch(s)))] for s in subjects]
    return guarded(rec, fn)


def lexer(pattern, flags):
    import parce
    import parce.action as a
    def L(cls):
        yield pattern, a.Name
    L.__name__ = "L"
    cls = type(parce.Language)("Words", (parce.Language,), {"__module__": "verif.generated",
                                                           "L": parce.lexicon(re_flags=flags)(L)})
    return lambda text: [[t.pos, t.end] for t in parce.root(cls.L, text).tokens()]


def wtokens(ws, pre, suf, subjects):
    from parce import rule
    rec = blank("wtokens")
    rec.update(ws=[codes(w) for w in ws], pre=codes(pre), suf=codes(suf), subj=[codes(s) for s in subjects])
    def fn():
        lx = lexer(rule.words(ws, re.escape(pre), re.escape(suf)), 0)
        rec["r"] = [lx(s) for s in subjects]
    return guarded(rec, fn)


# expressions of known meaning ------------------------------------------------

def part(rng, verbose=False):
    """(source, AST) of one part of an expression."""
    c = lang.cset
    x = rng.random()
    ch = rng.choice("abxyzAB_01 ,;:/-")
    if x < .35:
        if ch.isspace() and verbose:
            return ch, lang.lit("")
        return ch, lang.lit(ch)
    if x < .5:
        ch = rng.choice(".^$*+?{}[]\\|()")
        return "\\" + ch, lang.lit(ch)
    if x < .6:
        n = rng.choice("afnrtv")
        return "\\" + n, lang.lit({"a": "\a", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}[n])
    if x < .78:
        o = rng.choice([65, 97, 0x2e, 0x5c, 0x20, 0xe9, 0x7b])
        return rng.choice([("\\x%02x" % o, lang.lit(chr(o))), ("\\u%04x" % o, lang.lit(chr(o))), ("\\U%08x" % o, lang.lit(chr(o))),
                           ("\\%03o" % o if o < 256 else "\\x41", lang.lit(chr(o))), ("\\0" + "%02o" % (o & 63), lang.lit(chr(o & 63))),
                           ("\\N{LATIN SMALL LETTER A}", lang.lit("a")), ("\\N{FULL STOP}", lang.lit("."))])
    if x < .84:
        ch = rng.choice(" -/,#")
        return "\\" + ch, lang.lit(ch)
    return rng.choice([
        ("\\d", c("0123456789")), ("[ab]", c("ab")), ("[^ab]", c("ab", True)), (".", c("\n", True)),
        ("a?", lang.rep(c("a"), 0, 1)), ("b+", lang.rep(c("b"), 1, 99)), ("x*", lang.rep(c("x"), 0, 99)),
        ("(?:a|b)", {"t": "alt", "xs": [lang.lit("a"), lang.lit("b")]}), ("a{1,2}", lang.rep(c("a"), 1, 2)),
        ("(?=a)", {"t": "la", "x": lang.lit("a"), "neg": False}), ("(?!a)", {"t": "la", "x": lang.lit("a"), "neg": True}),
        ("\\\\.", {"t": "cat", "xs": [lang.lit("\\"), c("\n", True)]}), ("\\\\[ab]", {"t": "cat", "xs": [lang.lit("\\"), c("ab")]})])


def expression(rng, verbose=False):
    parts = [part(rng, verbose) for _ in range(rng.randint(1, 5))]
    return "".join(p[0] for p in parts), {"t": "cat", "xs": [p[1] for p in parts]}


def sample(rng, p):
    """A string that (probably) matches."""
    t = p["t"]
    if t == "lit":
        return "".join(map(chr, p["s"]))
    if t == "set":
        return rng.choice("cd%") if p["neg"] else chr(rng.choice(p["s"]))
    if t == "cat":
        return "".join(sample(rng, x) for x in p["xs"])
    if t == "alt":
        return sample(rng, rng.choice(p["xs"]))
    if t == "rep":
        return "".join(sample(rng, p["x"]) for _ in range(rng.randint(p["lo"], min(p["hi"], 3))))
    return ""


def to_string(rng):
    from parce import regex
    rec = blank("to_string")
    expr, p = expression(rng)
    rec.update(p=p, expr=expr)
    def fn():
        s = regex.to_string(expr)
        rec["r"] = [[-1] if s is None else codes(s)]
    return guarded(rec, fn)


def ptokens(rng):
    rec = blank("ptokens")
    flags = rng.choice([0, 0, re.IGNORECASE, re.VERBOSE])
    expr, p = expression(rng, flags == re.VERBOSE)
    if flags == re.VERBOSE and "#" in expr.replace("\\#", ""):
        flags = 0
    subjects = []
    for _ in range(4):
        s = ""
        for _ in range(rng.randint(1, 3)):
            s += sample(rng, p) if rng.random() < .7 else rng.choice(["a", "b ", "\\", ".", expr[:3]])
        if flags & re.IGNORECASE and rng.random() < .6:
            s = s.swapcase()
        if flags == re.VERBOSE:
            s += " " + expr + " "
        s = s[:40]
        if flags & re.IGNORECASE:
            s = s.encode("ascii", "ignore").decode()
        subjects.append(s)
    rec.update(p=p, expr=expr, ic=bool(flags & re.IGNORECASE), subj=[codes(s) for s in subjects])
    def fn():
        lx = lexer(expr, flags)
        rec["r"] = [lx(s) for s in subjects]
    return guarded(rec, fn)


# drivers ---------------------------------------------------------------------

def small(job):
    """All sets of at most three short words, all short subjects."""
    seed, quick, part_, parts, maxw, size = job
    ws = ["".join(x) for n in range(maxw + 1) for x in itertools.product("ab", repeat=n)]
    subj = ["".join(x) for n in range(maxw + 2) for x in itertools.product("ab", repeat=n)]
    sets = [c for n in range(1, size + 1) for c in itertools.combinations(ws, n)]
    ev = [words(list(s), subj) for s in sets[part_::parts]]
    return [{"ev": ev[i:i + 20], "case": {"sets": "all sets of up to %d words of a, b" % size,
                                          "words": [["".join(map(chr, w)) for w in e["ws"]] for e in ev[i:i + 20]],
                                          "expr": [e["expr"] for e in ev[i:i + 20]]}} for i in range(0, len(ev), 20)]


def rand_words(rng):
    k = rng.random()
    alpha = "ab" if k < .25 else "abc" if k < .45 else "abcd\n-" if k < .6 else rng.sample(SPECIAL + "abc", 5)
    ws = set()
    if rng.random() < .35:
        # combinations: the same parts after and before each other
        for _ in range(rng.choice([1, 1, 2])):
            word = lambda: "".join(rng.choice(alpha) for _ in range(rng.choice([1, 1, 1, 2, 3])))
            parts = [list({rng.choice(["", word(), word()]) if rng.random() < .2 else word() for _ in range(rng.choice([1, 2, 2, 3]))})
                     for _ in range(rng.randint(2, 4))]
            if rng.random() < .5:
                i = rng.randrange(len(parts))
                parts.insert(i, parts[i])
            ws |= set(map("".join, itertools.islice(itertools.product(*parts), 40)))
            if rng.random() < .5:
                # words that stop earlier
                i = rng.randrange(len(parts))
                ws |= set(map("".join, itertools.product(*parts[:i])))
        ws = sorted(ws)
        if rng.random() < .3 and len(ws) > 2:
            ws.remove(rng.choice(ws))
        rng.shuffle(ws)
        return ws, alpha
    stems = ["".join(rng.choice(alpha) for _ in range(rng.randint(0, 3))) for _ in range(4)]
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14, 25])):
        w = "".join(rng.choice(alpha) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 4)))
        if rng.random() < .5:
            w = rng.choice(stems) + w
        if rng.random() < .4:
            w += rng.choice(stems)
        if rng.random() < .15:
            w = w * 2
        ws.add(w)
    ws = sorted(ws)
    rng.shuffle(ws)
    return ws, alpha


def mutants(rng, ws, alpha, n):
    res = set(rng.sample(ws, min(len(ws), n)))
    while len(res) < 2 * n:
        w = rng.choice(ws)
        i = rng.randrange(len(w) + 1)
        r = rng.random()
        if r < .3:
            w = w[:i] + w[i + 1:]
        elif r < .6:
            w = w[:i] + rng.choice(alpha) + w[i:]
        elif r < .8:
            w += rng.choice(ws)
        else:
            w = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 7)))
        if w in res:
            n -= .2
        res.add(w)
    return sorted(res)


def random_words(job):
    seed, quick, count = job
    rng = random.Random(seed)
    res = []
    for _ in range(count):
        ev = []
        for _ in range(6):
            ws, alpha = rand_words(rng)
            ev.append(words(ws, mutants(rng, ws, alpha, 14), rng.choice([list, tuple, set, iter, lambda w: (x for x in w)])))
        for _ in range(2):
            ws, alpha = rand_words(rng)
            ws = [w for w in ws if w] or ["a"]
            pre, suf = rng.choice(["", "", "a", "("]), rng.choice(["", "", "a", "b", ".", ws[0][-1:]])
            ev.append(wtokens(ws, pre, suf, ["".join(rng.choice([pre + w + suf, w, rng.choice(alpha)])
                                                     for w in rng.choices(ws, k=rng.randint(1, 4))) for _ in range(6)]))
        for _ in range(4):
            k = rng.random()
            pool = SPECIAL + "abcdefgxyz0123" if k < .7 else "".join(map(chr, range(33, 127)))
            cs = rng.sample(pool, rng.randint(1, 12 if k < .7 else 40))
            raw = rng.random() < .5
            if raw and rng.random() < .3:
                cs = cs + cs[:2]
            near = {chr(max(1, ord(c) + d)) for c in cs for d in (-1, 0, 1)}
            ev.append(chars(cs, rng.random() < .3, sorted(near | set("\\-]^[a") | {"", "ab"}), raw))
        for _ in range(6):
            ev.append(to_string(rng))
        for _ in range(4):
            ev.append(ptokens(rng))
        res.append({"ev": ev, "case": {"exprs": [e["expr"] for e in ev]}})
    return res
