"""Language definitions as data: random generation, and compilation to real
parce Language classes. The TLA+ module Lexing gives the data its meaning."""
import operator
import random
import re

from .core import codes

NONE = -1000000
NONESTR = [-1]
NACT = 8
BOL_ACTION = 6


def _parce():
    import parce
    import parce.action as a
    return parce, [a.Text, a.Keyword, a.Name, a.Number, a.String, a.Comment, a.Name.Tag, a.Operator]


def actions():
    return _parce()[1]


def action_index(action):
    for i, a in enumerate(actions()):
        if a is action:
            return i
    return -1


# ------------------------------------------------------------ regex

def rx(p):
    """Regular expression string of a pattern AST."""
    t = p["t"]
    if t == "lit":
        return re.escape(_s(p["s"]))
    if t == "set":
        return "[%s%s]" % ("^" if p["neg"] else "", "".join(re.escape(chr(c)) for c in p["s"]))
    if t == "cat":
        return "".join(_wrap(x) for x in p["xs"])
    if t == "alt":
        return "|".join(rx(x) for x in p["xs"])
    if t == "rep":
        lo, hi = p["lo"], p["hi"]
        q = {(0, 1): "?", (0, 99): "*", (1, 99): "+"}.get((lo, hi), "{%d,%d}" % (lo, hi))
        x = p["x"]
        body = rx(x) if x["t"] in ("set", "cap") or (x["t"] == "lit" and len(x["s"]) == 1) else "(?:%s)" % rx(x)
        return body + q + ("?" if p["lazy"] else "")
    if t == "cap":
        return "(%s)" % rx(p["x"])
    if t == "la":
        return "(?%s%s)" % ("!" if p["neg"] else "=", rx(p["x"]))
    if t == "eol":
        return "$"
    if t == "bol":
        return "^"
    raise ValueError(t)


def _wrap(x):
    return "(?:%s)" % rx(x) if x["t"] == "alt" else rx(x)


def _s(cs):
    return "".join(map(chr, cs))


# ------------------------------------------------------------ compilation

class Compiled:
    """A real Language made from the data.

    hook: if not None, every action calls self.hook() (if set to a callable)
    while the text is being lexed. split: the lexicons with an even number
    live in a second Language.
    """
    def __init__(self, data, hook=None, split=False):
        self.data = data
        self.hooked = hook is not None
        self.hook = None
        parce, self.acts = _parce()
        from parce import rule
        self.rule = rule
        nss = [{"__module__": "verif.generated"}, {"__module__": "verif.generated"}]
        self.split = split
        for i, lx in enumerate(data["lex"], 1):
            nss[self.part(i)]["L%d" % i] = self._lexicon(parce, i, lx)
        self.classes = [type(parce.Language)(n, (parce.Language,), ns) for n, ns in zip(("Gen", "GenB"), nss)]

    def part(self, i):
        return 1 if self.split and i % 2 == 0 else 0

    def _call_hook(self, text):
        if self.hook:
            self.hook()
        return 0

    def lexicon(self, i, arg=None):
        l = getattr(self.classes[self.part(i)], "L%d" % i)
        return l(arg) if arg is not None else l

    def key(self, lexicon):
        """[index, arg] of a real lexicon."""
        if lexicon is None:
            return [0, NONESTR]
        i = int(lexicon.name[1:])
        if lexicon.language is not self.classes[self.part(i)]:
            return [-1, NONESTR]
        return [i, NONESTR if lexicon.arg is None else codes(lexicon.arg)]

    def _lexicon(self, parce, i, lx):
        def rules(cls):
            for r in lx["rules"]:
                its = self.items(cls, r["items"])
                if r["k"] == "da":
                    yield (parce.default_action, *its)
                elif r["k"] == "dt":
                    yield (parce.default_target, *its)
                else:
                    yield (self.pattern(r["p"]), *its)
        rules.__name__ = "L%d" % i
        flags = re.MULTILINE | (re.IGNORECASE if lx["ic"] else 0)
        return parce.lexicon(re_flags=flags, consume=lx["consume"])(rules)

    def pattern(self, p):
        if p["t"] == "arg":
            d = p["dflt"]
            return self.rule.arg(prefix=re.escape(_s(p["pre"])), suffix=re.escape(_s(p["suf"])),
                                 default=rx(d[0]) if d else None)
        if p["t"] == "ifarg":
            return self.rule.ifarg(rx(p["a"][0]) if p["a"] else None, rx(p["b"][0]) if p["b"] else None)
        return rx(p)

    def expr(self, x):
        R = self.rule
        t = x["t"]
        if t == "text":
            return R.TEXT
        if t == "arg":
            return R.ARG
        if t == "m":
            return R.MATCH[x["n"]]
        if t == "str":
            return _s(x["s"])
        if t == "none":
            return None
        if t == "cat":
            return R.call(operator.add, self.expr(x["a"]), self.expr(x["b"]))
        if t == "sl":
            f = lambda v: None if v == NONE else v
            return self.expr(x["e"])[f(x["a"]):f(x["b"])]
        raise ValueError(t)

    def items(self, cls, xs):
        return tuple(self.item(cls, x) for x in xs)

    def item(self, cls, x):
        import parce
        R = self.rule
        t = x["t"]
        L = lambda i: self.lexicon(i)
        br = lambda xs: (lambda its: its[0] if len(its) == 1 and not isinstance(its[0], tuple) else its)(self.items(cls, xs))
        if t == "act":
            if self.hooked:
                return R.select(R.call(self._call_hook, R.TEXT), self.acts[x["a"]])
            return self.acts[x["a"]]
        if t == "skip":
            return parce.skip
        if t == "using":
            return R.using(L(x["lx"]) if x["arg"] == NONESTR else L(x["lx"])(_s(x["arg"])))
        if t == "grp":
            return R.bygroup(*self.items(cls, x["xs"]))
        if t == "int":
            return x["n"]
        if t == "lex":
            return L(x["lx"]) if x["arg"] == NONESTR else L(x["lx"])(_s(x["arg"]))
        if t == "list":
            return self.items(cls, x["xs"])
        if t == "ifeq":
            return R.ifeq(self.expr(x["a"]), self.expr(x["b"]), br(x["r"]), br(x["e"]))
        if t == "ifneq":
            return R.ifneq(self.expr(x["a"]), self.expr(x["b"]), br(x["r"]), br(x["e"]))
        if t == "ifmember":
            return R.ifmember(self.expr(x["a"]), [_s(s) for s in x["set"]], br(x["r"]), br(x["e"]))
        if t == "ifgroup":
            return R.ifgroup(x["n"], br(x["r"]), br(x["e"]))
        if t == "gselect":
            # ns are group numbers, 0 for a None entry
            args = []
            for n, r in zip(x["ns"], x["rs"]):
                while len(args) < n - 1:
                    args.append(None)
                args.append(br(r))
            return R.gselect(*args, default=br(x["e"]))
        if t == "dselect":
            return R.dselect(self.expr(x["a"]), {_s(k): br(r) for k, r in zip(x["keys"], x["rs"])}, br(x["e"]))
        if t == "findmember":
            return R.findmember(self.expr(x["a"]), [([_s(s) for s in ss], br(r)) for ss, r in zip(x["sets"], x["rs"])], br(x["e"]))
        if t == "sellen":
            n = len(x["rs"])
            return R.select(R.call(lambda s: len(s) % n, self.expr(x["a"])), *(br(r) for r in x["rs"]))
        if t == "derive":
            return R.derive(L(x["lx"]), self.expr(x["a"]))
        if t == "target":
            num, d = x["n"], x["d"]
            def pred(s):
                n = len(s) % 3
                return num if n == 0 else (n - 1, s if d else None)
            return R.target(R.call(pred, self.expr(x["a"])), *(L(i) for i in x["lxs"]))
        if t == "tgtix":
            n = len(x["lxs"])
            return R.target((R.call(lambda s: len(s) % n, self.expr(x["a"])), self.expr(x["g"])), *(L(i) for i in x["lxs"]))
        if t == "tgtdl":
            n = len(x["lxs"])
            return R.target((R.call(lambda s: len(s) % n, self.expr(x["a"])), self.expr(x["g"])),
                            *(R.derive(L(i), self.expr(x["h"])) for i in x["lxs"]))
        if t == "usingd":
            return R.using(R.derive(L(x["lx"]), self.expr(x["a"])))
        if t == "selc":
            return R.select(x["n"] - 1, *(br(r) for r in x["rs"]))
        raise ValueError(t)


# ------------------------------------------------------------ generation

ALPHA = "abcxy1 \n("


def lit(s):
    return {"t": "lit", "s": codes(s)}


def cset(s, neg=False):
    return {"t": "set", "s": codes(s), "neg": neg}


def rep(x, lo, hi, lazy=False):
    return {"t": "rep", "x": x, "lo": lo, "hi": hi, "lazy": lazy}


def lx_item(i, arg=None):
    return {"t": "lex", "lx": i, "arg": NONESTR if arg is None else codes(arg)}


def nullable(p):
    t = p["t"]
    if t == "lit":
        return not p["s"]
    if t == "cat":
        return all(map(nullable, p["xs"]))
    if t == "alt":
        return any(map(nullable, p["xs"]))
    if t == "rep":
        return p["lo"] == 0 or nullable(p["x"])
    if t == "cap":
        return nullable(p["x"])
    return t in ("la", "eol", "bol")


class Gen:
    """Random language generator.

    bounded: patterns only look ahead a bounded number of characters and have
    no unbounded part except at their end (for incremental parsing).
    """
    def __init__(self, rng, bounded=True, nlex=None, groups=True, dynamic=True, empty=True, wild=False, argy=False):
        self.argy = argy    # much depends on the lexicon argument
        self.wild = wild    # many empty matches and default targets
        self.rng = rng
        self.bounded = bounded
        self.n = nlex or rng.choice([1, 2, 3, 3, 4, 5])
        self.groups = groups
        self.dynamic = dynamic
        self.empty = empty
        self.nested = False
        # patterns that look over several tokens
        self.long = bounded and rng.random() < .3
        self.few = "".join(rng.sample(ALPHA, 2))

    def act(self):
        """In a bounded language action 6 is for patterns with ^ only: a
        token must not look the same when its context before it changes."""
        a = self.rng.randrange(NACT)
        if self.bounded and a == BOL_ACTION:
            a = 0
        return {"t": "act", "a": a}

    def word(self, lo=1, hi=3):
        return "".join(self.rng.choice(ALPHA) for _ in range(self.rng.randint(lo, hi)))

    def chars(self):
        r = self.rng
        return "".join(r.sample(ALPHA, r.randint(1, 4)))

    def atom(self):
        r = self.rng
        x = r.random()
        if x < .45:
            return lit(self.word(1, 2))
        if x < .9:
            return cset(self.chars(), r.random() < .12)
        return {"t": "alt", "xs": [lit(self.word()), lit(self.word())]}

    def simple(self):
        """A pattern without groups; (AST, nullable)."""
        r = self.rng
        x = r.random()
        if x < .3:
            return lit(self.word(1, r.choice([1, 1, 2, 3])))
        if x < .5:
            return cset(self.chars(), r.random() < .15)
        if x < .65:
            return rep(cset(self.chars(), r.random() < .1), 1, 99)
        if x < .72:
            return {"t": "cat", "xs": [self.atom(), rep(cset(self.chars()), r.randint(0, 1), 99)]}
        if x < .8:
            return {"t": "cat", "xs": [self.atom(), self.atom()]}
        if x < .86:
            return {"t": "alt", "xs": [self.atom() for _ in range(r.randint(2, 3))]}
        if x < .91:
            return {"t": "cat", "xs": [self.atom(), {"t": "la", "x": self.atom(), "neg": r.random() < .5}]}
        if x < .94 and not self.bounded:
            return {"t": "cat", "xs": [{"t": "bol"}, self.atom()]}
        if x < .96:
            return {"t": "cat", "xs": [self.atom(), {"t": "eol"}]}
        if self.bounded:
            return {"t": "cat", "xs": [self.atom(), rep(self.atom(), 0, 1), self.atom()]}
        return r.choice([
            {"t": "cat", "xs": [rep(cset(self.chars()), 1, 99), self.atom()]},
            {"t": "cat", "xs": [self.atom(), rep(cset(self.chars(), True), 0, 99, True), self.atom()]},
            rep({"t": "cat", "xs": [self.atom(), self.atom()]}, 1, 3),
        ])

    def grouped(self):
        r = self.rng
        n = r.randint(1, 3)
        xs = []
        for i in range(1, n + 1):
            last = i == n
            inner = self.atom()
            run = last and r.random() < .4
            if run:
                inner = rep(cset(self.chars()), r.randint(0, 1) if n > 1 else 1, 99)
            g = {"t": "cap", "n": i, "x": inner}
            if n > 1 and r.random() < .25 and not nullable(inner) and not (self.bounded and i == 1):
                g = rep(g, 0, 1)
            xs.append(g)
            if r.random() < .1 and not (run and self.bounded):
                xs.append(self.atom())      # text between the groups
        if all(nullable(x) for x in xs):
            xs.insert(0, self.atom())
        return {"t": "cat", "xs": xs}, n

    def empty_pattern(self):
        r = self.rng
        return r.choice([
            {"t": "la", "x": self.atom(), "neg": r.random() < .3},
            {"t": "eol"}, {"t": "eol"} if self.bounded else {"t": "bol"},
            rep(cset(self.chars()), 0, 99),
            rep(self.atom(), 0, 1),
        ])

    def expr(self, ng, arg=True):
        r = self.rng
        x = r.random()
        if self.argy and r.random() < .5:
            return {"t": "arg"}
        if ng and x < .3:
            return {"t": "m", "n": r.randint(1, ng)}
        if x < .75 or self.nested:
            return {"t": "text"}
        if x < .85:
            return {"t": "sl", "e": {"t": "text"}, "a": r.choice([NONE, 0, 1, -1]), "b": r.choice([NONE, 1, 2, -1])}
        return {"t": "str", "s": codes(self.word())}

    def strexpr(self, ng):
        """An expression that is never None and not empty."""
        return {"t": "text"}

    def action(self, ng, nested=False):
        r = self.rng
        if ng and not nested and r.random() < .8:
            xs = [self.action(0, True) for _ in range(ng)]
            if self.bounded:
                # the first token must start where the match starts
                xs[0] = r.choice([self.act(), {"t": "ifeq", "a": {"t": "text"}, "b": {"t": "str", "s": codes(self.word(1, 1))},
                                           "r": [self.act()], "e": [self.act()]}])
            return {"t": "grp", "xs": xs}
        x = r.random()
        if x < .06:
            return {"t": "skip"}
        if self.argy and x < .2 and self.i < self.n and not nested:
            return {"t": "usingd", "lx": r.randint(self.i + 1, self.n), "a": r.choice([{"t": "arg"}, {"t": "text"}])}
        if x < .12 and self.i < self.n and not nested:
            return {"t": "using", "lx": r.randint(self.i + 1, self.n), "arg": NONESTR}
        if self.dynamic and x < .3:
            return self.dyn(ng, lambda: [self.action(0, True)], nested)
        return self.act()

    def dyn(self, ng, branch, nested=False):
        """A dynamic item choosing between branches. Nested in a group the
        text can be None, so it can only be compared."""
        r = self.rng
        k = r.choice(["ifeq", "ifneq", "ifmember", "dselect", "findmember"]
                     + (["ifgroup", "gselect"] if ng else []) + (["sellen"] if not nested else []))
        self.nested = nested
        w = lambda: codes(self.word(1, 2))
        if k in ("ifeq", "ifneq"):
            a = self.expr(ng)
            return {"t": k, "a": a, "b": r.choice([{"t": "str", "s": w()}, {"t": "arg"}, self.expr(ng)]),
                    "r": branch(), "e": branch()}
        if k == "ifmember":
            return {"t": k, "a": self.expr(ng), "set": [w() for _ in range(3)] + [[ord(c)] for c in self.chars()],
                    "r": branch(), "e": branch()}
        if k == "ifgroup":
            return {"t": k, "n": r.randint(1, ng), "r": branch(), "e": branch()}
        if k == "gselect":
            ns = sorted(r.sample(range(1, ng + 1), r.randint(1, ng)))
            return {"t": k, "ns": ns, "rs": [branch() for _ in ns], "e": branch()}
        if k == "dselect":
            keys = list({self.word(1, 2) for _ in range(3)})
            keys.sort()
            return {"t": k, "a": self.expr(ng), "keys": [codes(s) for s in keys],
                    "rs": [branch() for _ in keys], "e": branch()}
        if k == "findmember":
            sets = [[w() for _ in range(2)] + [[ord(c)] for c in self.chars()] for _ in range(2)]
            return {"t": k, "a": self.expr(ng), "sets": sets, "rs": [branch() for _ in sets], "e": branch()}
        return {"t": "sellen", "a": {"t": "text"}, "rs": [branch() for _ in range(r.randint(2, 3))]}

    def lexref(self, lo=1):
        r = self.rng
        i = r.randint(lo, self.n)
        x = r.random()
        if self.argy and x < .5:
            s = lambda: r.choice([{"t": "arg"}, {"t": "text"}, {"t": "sl", "e": {"t": "arg"}, "a": NONE, "b": 1},
                                  {"t": "sl", "e": {"t": "text"}, "a": NONE, "b": 2}, {"t": "str", "s": codes(self.word(1, 1))}])
            k = r.randrange(3)
            if k == 0:
                return {"t": "tgtix", "a": s(), "g": s(), "lxs": [i, r.randint(lo, self.n)]}
            if k == 1:
                return {"t": "selc", "n": 1, "rs": [[{"t": "derive", "lx": i, "a": s()}], []]}
            return {"t": "derive", "lx": i, "a": s()}
        if x < .12:
            return {"t": "derive", "lx": i, "a": {"t": "text"}}
        if x < .18:
            return lx_item(i, self.word(1, 2))
        return lx_item(i)

    def targets(self, ng, nonempty):
        """Target items. If the match can be empty only targets that can't
        run away: pops, and pushes of lexicons with a higher number."""
        r = self.rng
        if not nonempty:
            return self.safe_targets()
        x = r.random()
        if x < .5:
            return []
        if x < .68:
            return [{"t": "int", "n": r.choice([-1, -1, -1, -2, -3])}]
        if x < .82:
            return [self.lexref()]
        if x < .86:
            return [{"t": "int", "n": r.choice([1, 1, 2])}]
        if x < .9:
            return [{"t": "int", "n": -1}, self.lexref()]
        if x < .93:
            return [self.lexref(), self.lexref()]
        if x < .95:
            return [self.lexref(), {"t": "int", "n": -1}]
        if not self.dynamic:
            return []
        if x < .97:
            return [{"t": "target", "a": {"t": "text"}, "n": r.choice([-1, 0, 1, -2]),
                     "lxs": [r.randint(1, self.n), r.randint(1, self.n)], "d": r.random() < .3}]
        return [self.dyn(ng, lambda: r.choice([[], [self.lexref()], [{"t": "int", "n": -1}]]))]

    def safe_targets(self):
        r = self.rng
        i = self.i
        up = lambda: lx_item(r.randint(i + 1, self.n), self.word(1, 1) if r.random() < .1 else None)
        opts = [[{"t": "int", "n": -1}], [{"t": "int", "n": -1}], [{"t": "int", "n": -2}]]
        if i < self.n:
            opts += [[up()], [up()], [{"t": "int", "n": -1}, up()], [{"t": "int", "n": -2}, up()]]
        return r.choice(opts)

    def lexicon(self, i):
        r = self.rng
        self.i = i
        rules = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 5])):
            x = r.random()
            if self.bounded and r.random() < .05:
                rules.append({"k": "pat", "p": {"t": "cat", "xs": [{"t": "bol"}, self.atom()]}, "ng": 0,
                              "items": [{"t": "act", "a": BOL_ACTION}] + self.targets(0, True)})
                continue
            if self.empty and x < (.3 if self.wild else .05):
                p, ng, nonempty = self.empty_pattern(), 0, False
            elif self.groups and x < .25:
                (p, ng), nonempty = self.grouped(), True
            elif x < .31:
                p, ng, nonempty = {"t": "arg", "pre": codes(self.word(1, 1)) if r.random() < .2 else [],
                                   "suf": codes(self.word(1, 1)) if r.random() < .2 else [],
                                   "dflt": [lit(self.word(1, 1))] if r.random() < .4 else []}, 0, True
            elif x < .35:
                p, ng, nonempty = {"t": "ifarg", "a": [self.simple()] if r.random() < .8 else [],
                                   "b": [self.simple()] if r.random() < .5 else []}, 0, True
            else:
                p, ng, nonempty = self.simple(), 0, True
            if nonempty and r.random() < .15 and self.dynamic:
                items = [self.dyn(ng, lambda: [self.action(ng)] + self.targets(ng, True))]
            elif not nonempty:
                # an empty match must never loop; the action sees empty text
                items = [self.act()] + (self.safe_targets() if r.random() < .8 else [])
            else:
                items = [self.action(ng)] + self.targets(ng, True)
            rules.append({"k": "pat", "p": p, "ng": ng, "items": items})
        if self.long and r.random() < .7:
            w = "".join(r.choice(self.few) for _ in range(r.randint(3, 7))) + r.choice(ALPHA)
            p = r.choice([lit(w), lit(w), {"t": "cat", "xs": [lit(w[:1]), {"t": "la", "x": lit(w[1:]), "neg": r.random() < .3}]}])
            rules.insert(0, {"k": "pat", "p": p, "ng": 0, "items": [self.act()] + self.targets(0, True)})
            rules.insert(r.randint(1, len(rules)), {"k": "pat", "p": cset(self.few), "ng": 0, "items": [self.act()]})
        if r.random() < (.3 if self.long else .06) and self.dynamic:
            # a lexicon is entered with text ahead as argument
            k = r.randint(0, 4)
            ahead = [cset(self.few) for _ in range(k)] + [{"t": "cap", "n": 1, "x": cset(self.chars())}]
            rules.insert(0, {"k": "pat", "p": {"t": "cat", "xs": [self.atom(), {"t": "la", "x": {"t": "cat", "xs": ahead}, "neg": False}]},
                             "ng": 1, "items": [self.act(), {"t": "derive", "lx": r.randint(1, self.n), "a": {"t": "m", "n": 1}}]
                             + ([self.lexref()] if r.random() < .3 else [])})
        x = r.random()
        if self.wild:
            x = .1 + x * .5
        if x < .3:
            a = r.choice([self.act(), self.act(), {"t": "skip"},
                          {"t": "dselect", "a": {"t": "text"}, "keys": [codes("a"), codes("b")],
                           "rs": [[self.act()], [self.act()]], "e": [self.act()]} if self.dynamic else self.act()])
            rules.insert(r.randint(0, len(rules)), {"k": "da", "items": [a]})
        elif x < .6:
            rules.insert(r.randint(0, len(rules)), {"k": "dt", "items": self.safe_targets()})
        if r.random() < .04:
            rules = [x for x in rules if x["k"] != "pat"]
        return {"consume": r.random() < .25, "ic": r.random() < .1, "rules": rules}

    def language(self):
        d = {"lex": [self.lexicon(i) for i in range(1, self.n + 1)]}
        if self.argy:
            self.all_derived(d)
        if self.bounded:
            # delegated text must not start with skipped text, see DESIGN.md
            for i in range(self.n, 0, -1):
                _solidify(d, d["lex"][i - 1])
        return d

    def all_derived(self, x):
        """Give all lexicons an argument."""
        if isinstance(x, dict):
            if x.get("t") in ("lex", "using") and x["arg"] == NONESTR:
                x["arg"] = codes(self.word(1, 1))
            elif x.get("t") == "target":
                x["d"] = True
            for y in x.values():
                self.all_derived(y)
        elif isinstance(x, list):
            for y in x:
                self.all_derived(y)

    def text(self, lo, hi):
        r = self.rng
        n = r.randint(lo, hi)
        return "".join(r.choice(ALPHA + "abA") for _ in range(n))


def _solid(data, lx):
    """True if every text yields a token at its start in this lexicon."""
    das = [r for r in lx["rules"] if r["k"] == "da"]
    def static(items):
        return items[0]["t"] == "act"
    return (bool(das) and das[-1]["items"][0]["t"] == "act"
            and all(static(r["items"]) or (r["items"][0]["t"] == "grp" and not _has(r, "skip"))
                    for r in lx["rules"] if r["k"] == "pat"))


def _has(x, t):
    if isinstance(x, dict):
        return x.get("t") == t or any(_has(v, t) for v in x.values())
    return isinstance(x, list) and any(_has(v, t) for v in x)


def _solidify(data, x):
    if isinstance(x, dict):
        if x.get("t") == "using" and not _solid(data, data["lex"][x["lx"] - 1]):
            x.clear()
            x.update({"t": "act", "a": 4})
        for v in x.values():
            _solidify(data, v)
    elif isinstance(x, list):
        for v in x:
            _solidify(data, v)


def corpus(data, rng):
    """Strings that occur in the language, to make texts that match more."""
    res = []
    def walk(x):
        if isinstance(x, dict):
            if x.get("t") in ("lit",):
                w = _s(x["s"])
                res.append(w)
                if len(w) > 3:      # almost, and pieces
                    res.extend([w[:-1] + rng.choice(ALPHA), w[:-1], w[1:], w[:1] + w, w[:-1]])
            elif x.get("t") == "set" and not x["neg"]:
                res.append(chr(rng.choice(x["s"])))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(data)
    return res or ["a"]


def rich_text(data, rng, n):
    """A text of about n characters that exercises the language."""
    c = corpus(data, rng)
    t = ""
    while len(t) < n:
        t += rng.choice(c) if rng.random() < .75 else rng.choice(ALPHA)
    return t[:n]
