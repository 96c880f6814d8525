"""Validation and inspection of generated language definitions, good and bad."""
import contextlib
import io
import itertools
import random

from .core import cpu_limit, Hang, where, codes
from .lexdrive import failures
from . import lang

BAD_PATTERNS = ["(", "[a", "*a", "a)", "(?P<x", 5, "\\"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.flaws = rng.choice([0, 0, .05, .12, .3])
        self.wild = rng.choice([0, .3, .7])         # default targets
        self.names = ["n%d" % i for i in range(1, rng.randint(2, 5))]

    def pattern(self):
        rng, lit = self.rng, lambda: lang.lit(rng.choice(["a", "b", "ab", "c", "ba"]))
        x = rng.random()
        if x < .5:
            return lit()
        if x < .65:
            return {"t": "cat", "xs": [lit(), lang.rep(lit(), rng.choice([0, 1]), rng.choice([1, 99]))]}
        if x < .75:
            return {"t": "alt", "xs": [lit(), lit()]}
        if x < .85:
            return lang.rep(lang.cset("ab"), 1, 99)
        if rng.random() > self.flaws * 3:
            return lang.cset("abc", True)
        return rng.choice([lang.rep(lit(), 0, 99), lang.rep(lang.cset("ab"), 0, 1), {"t": "alt", "xs": [lit(), lang.lit("")]},
                           {"t": "la", "neg": True, "x": lit()}, {"t": "eol"},
                           {"t": "la", "neg": False, "x": lit()}, {"t": "bol"}])

    def target(self, c, own, deep=True):
        rng, x = self.rng, self.rng.random()
        if x < self.flaws * .3:
            return {"t": "bad"}
        if x < .25:
            return {"t": "num", "n": rng.choice([-1, -1, -2, 1, 1, 2, 0])}
        if x < .4 and deep:
            return {"t": "sel", "xs": [[self.target(c, own, rng.random() < .3) for _ in range(rng.choice([1, 1, 2]))]
                                       for _ in range(rng.randint(1, 3))]}
        k = rng.randrange(0, len(self.classes) + 1) if rng.random() < .3 else 0
        return {"t": "lex", "c": k, "n": rng.choice(self.names if k or rng.random() < .7 else own)}

    def default_target(self, c, own):
        rng = self.rng
        x = rng.random()
        if x < self.flaws:
            return [self.target(c, own) for _ in range(rng.randint(1, 2))]
        if x < .45:
            return [{"t": "num", "n": rng.choice([-1, -1, -1, -2])}]
        if x < .8:
            return [{"t": "lex", "c": 0, "n": rng.choice(own)} for _ in range(rng.choice([1, 1, 2]))]
        if x < .9:
            return [{"t": "num", "n": rng.choice([1, 0, 2])}]
        return [{"t": "num", "n": rng.choice([-1, -1, -2, 1])}, {"t": "lex", "c": 0, "n": rng.choice(own)}][::rng.choice([1, -1])]

    def rule(self, c, own):
        rng, x = self.rng, self.rng.random()
        r = {"k": "pat", "pat": self.pattern(), "rep": "", "how": 0,
             "acts": rng.sample(range(lang.NACT), rng.choice([1, 1, 1, 2])),
             "tgt": [self.target(c, own) for _ in range(rng.choice([0, 0, 1, 1, 2]))]}
        if x < self.flaws:
            r["k"] = rng.choice(["bad", "bad", "none", "short", "notup"])
            r["how"] = rng.randrange(100)
        return r

    def rules(self, c, own):
        rng = self.rng
        rs = [self.rule(c, own) for _ in range(rng.randint(0, 4))]
        if rng.random() < self.flaws and rs:
            rs.append(dict(rng.choice(rs), tgt=[], acts=[0]))
        def dflt(k):
            rs.insert(rng.randint(0, len(rs)), {
                "k": k, "pat": lang.lit("a"), "rep": "", "how": 0, "acts": [rng.randrange(lang.NACT)] if k == "dact" else [],
                "tgt": self.default_target(c, own) if k == "dtgt" else []})
        if rng.random() < self.wild:
            dflt("dtgt")
        elif rng.random() < .3:
            dflt("dact")
        if rng.random() < self.flaws:
            dflt(rng.choice(["dact", "dtgt"]))
        for r in rs:
            if r["k"] == "bad":
                r["rep"] = "bad %r" % (BAD_PATTERNS[r["how"] % len(BAD_PATTERNS)],)
            elif r["k"] == "pat":
                r["rep"] = lang.rx(r["pat"])
        return rs

    def make(self):
        rng = self.rng
        self.classes = []
        for c in range(1, rng.randint(2, 4)):
            base = rng.randrange(0, c) if c > 1 else 0
            if base:
                over = rng.sample(self.names, rng.randint(0, len(self.names)))
                extra = ["x%d" % c] if rng.random() < .4 else []
                own = self.names + extra
                names = over + extra
            else:
                own = names = list(self.names)
            self.classes.append({"base": base, "defs": []})
            self.classes[-1]["defs"] = [{"name": n, "rules": self.rules(c, own)} for n in names]
        return self.classes


def build(specs):
    import parce
    from parce import lexicon, default_action, default_target
    from parce.rule import select, call, TEXT
    acts = lang.actions()
    classes = []

    def target(cls, t):
        if t["t"] == "num":
            return t["n"]
        if t["t"] == "bad":
            return "nothing"
        if t["t"] == "sel":
            return select(call(len, TEXT), *[target(cls, x[0]) if len(x) == 1 else tuple(target(cls, y) for y in x) for x in t["xs"]])
        return getattr(classes[t["c"] - 1] if t["c"] else cls, t["n"])

    def make(name, rules):
        def func(cls):
            for r in rules:
                tg = [target(cls, t) for t in r["tgt"]]
                act = [acts[i] for i in r["acts"]]
                act = act[:1] if len(act) < 2 else [select(call(len, TEXT), *act)]
                k = r["k"]
                if k == "notup":
                    yield [5, None][r["how"] % 2]
                elif k == "short":
                    yield [("a",), (), ["b"]][r["how"] % 3]
                elif k == "dact":
                    yield (default_action, *act)
                elif k == "dtgt":
                    yield (default_target, *tg)
                elif k == "none":
                    yield (None, *act, *tg)
                else:
                    p = BAD_PATTERNS[r["how"] % len(BAD_PATTERNS)] if k == "bad" else r["rep"]
                    yield (p, *act, *tg)
        func.__name__ = name
        return lexicon(func)

    for i, s in enumerate(specs, 1):
        classes.append(type("L%d" % i, (classes[s["base"] - 1],) if s["base"] else (parce.Language,),
                            {d["name"]: make(d["name"], d["rules"]) for d in s["defs"]}))
    return classes


def rules_of(specs, c):
    out = {}
    while c:
        for d in specs[c - 1]["defs"]:
            out.setdefault(d["name"], d["rules"])
        c = specs[c - 1]["base"]
    return out


def tame(specs):
    """Lexing this may hang only when a default target runs away."""
    return not any(r["k"] not in ("pat", "dact", "dtgt") or r["k"] == "pat" and lang.nullable(r["pat"])
                   or r["k"] == "dtgt" and len(r["tgt"]) > 1 and any(t["t"] == "num" and t["n"] < 0 for t in r["tgt"])
                   for c in specs for d in c["defs"] for r in d["rules"])


def histories(job):
    from parce import introspect, validate
    from parce.lexer import Lexer
    from parce.transform import Transform
    seed, quick, count = job
    rng = random.Random(seed)
    res = []
    for _ in range(count):
        specs = Gen(rng).make()
        acts = lang.actions()
        ev = []
        try:
            classes = build(specs)
        except Exception as e:
            raise AssertionError(where(e))
        for c, cls in enumerate(classes, 1):
            rules = rules_of(specs, c)
            ops = [("lexicon", n) for n in rules] + [("language", ""), ("lexicons", ""), ("transform", "")]
            if not any(r["k"] == "notup" for rs in rules.values() for r in rs):
                ops += [("actions", ""), ("langs", "")]
            if tame(specs):
                ops += [("lex", n) for n in rules]
            rng.shuffle(ops)
            for op, name in ops:
                rec = {"op": op, "c": c, "n": name, "ok": True, "err": False, "warn": False, "names": [], "s": [], "text": [],
                       "has": [], "exc": ""}
                out = io.StringIO()
                try:
                    with cpu_limit(3), contextlib.redirect_stdout(out):
                        if op == "lexicon":
                            v = validate.LexiconValidator(getattr(cls, name))
                            rec["ok"] = bool(v.validate())
                            if rng.random() < .2:       # once more, nothing changes
                                rec["ok"] = bool(v.validate())
                            rec["err"], rec["warn"] = bool(v.errors), bool(v.warnings)
                        elif op == "language":
                            rec["ok"] = bool(validate.validate_language(cls))
                            rec["warn"] = bool(out.getvalue().strip())
                        elif op == "lexicons":
                            ls = introspect.lexicons(cls)
                            if any(l.language is not cls or l is not getattr(cls, l.name) for l in ls):
                                raise AssertionError("lexicon of another language")
                            rec["names"] = [l.name for l in ls]
                        elif op == "actions":
                            rec["s"] = sorted(acts.index(a) for a in introspect.standardactions(cls))
                        elif op == "langs":
                            rec["s"] = sorted(classes.index(x) + 1 for x in introspect.languages(cls))
                        elif op == "transform":
                            ns, has = {}, []
                            for n in rules:
                                x = rng.random()
                                if x < .15:
                                    continue
                                has.append(n)
                                ns[n] = None if x < .25 else (lambda self, items: None)
                            rec["has"] = has
                            tf = type("T", (Transform,), ns)()
                            rec["ok"] = bool(validate.validate_transform(tf, cls))
                            o = out.getvalue()
                            rec["names"] = [n for n in rules if cls.__name__ + "." + n in o]
                            # a lexicon that is ignored may be mentioned as well
                            rec["names"] = [n for n in rec["names"] if not (n in has and ns[n] is None)]
                        elif not all(map(validate.validate_language, classes)):
                            continue
                        else:
                            text = "".join(rng.choice("abcd") for _ in range(rng.randint(0, 6)))
                            rec["text"] = codes(text)
                            n = sum(1 for _ in itertools.islice(Lexer([getattr(cls, name)]).events(text), 3000))
                            rec["ok"] = n < 3000
                except Hang:
                    if op == "lex":
                        rec["ok"] = False
                    else:
                        rec["exc"] = "Hang"
                except Exception as e:
                    if op == "lex":
                        continue            # the language may be wrong
                    rec["exc"] = where(e)
                ev.append(rec)
                if rec["exc"]:
                    break
            if ev[-1]["exc"]:
                break
        res.append({"case": {"classes": specs}, "classes": specs, "ev": ev})
        if failures(res):
            break
    return res
