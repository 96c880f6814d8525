"""Evaluates rules with dynamic items in all possible ways."""
import itertools
import random
import re

from . import lang
from .core import codes, cpu_limit, Hang, where
from .lang import NONE, NONESTR

NLEX = 4


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def word(self):
        return codes("".join(self.rng.choice("ab(") for _ in range(self.rng.randint(0, 2))))

    def text(self):
        """An expression that is always a string."""
        r = self.rng
        x = r.random()
        if x < .4:
            return {"t": "arg"}
        if x < .65:
            return {"t": "text"}
        if x < .72:
            return {"t": "str", "s": self.word()}
        if x < .8:
            return {"t": "m", "n": 1}
        if x < .9:
            return {"t": "sl", "e": self.text(), "a": r.choice([NONE, 0, 1, -1]), "b": r.choice([NONE, 1, 2, -1])}
        return {"t": "cat", "a": self.text(), "b": self.text()}

    def any(self):
        r = self.rng
        return self.text() if r.random() < .8 else r.choice([{"t": "none"}, {"t": "m", "n": 2}, {"t": "m", "n": 3}])

    def dyn(self, branch):
        r = self.rng
        b = branch
        k = r.choice(["ifeq", "ifneq", "ifmember", "dselect", "findmember", "ifgroup", "gselect", "sellen", "sellen", "selc"])
        if k in ("ifeq", "ifneq"):
            return {"t": k, "a": self.any(), "b": self.any(), "r": b(), "e": b()}
        if k == "ifmember":
            return {"t": k, "a": self.any(), "set": [self.word() for _ in range(4)], "r": b(), "e": b()}
        if k == "ifgroup":
            return {"t": k, "n": r.randint(1, 3), "r": b(), "e": b()}
        if k == "gselect":
            ns = sorted(r.sample(range(1, 4), r.randint(1, 3)))
            return {"t": k, "ns": ns, "rs": [b() for _ in ns], "e": b()}
        if k == "dselect":
            keys = sorted({tuple(self.word()) for _ in range(3)})
            return {"t": k, "a": self.any(), "keys": [list(x) for x in keys], "rs": [b() for _ in keys], "e": b()}
        if k == "findmember":
            sets = [[self.word() for _ in range(3)] for _ in range(2)]
            return {"t": k, "a": self.any(), "sets": sets, "rs": [b() for _ in sets], "e": b()}
        rs = [b() for _ in range(r.randint(2, 3))]
        if k == "selc":
            return {"t": k, "n": r.randint(1, len(rs)), "rs": rs}
        return {"t": "sellen", "a": self.text(), "rs": rs}

    def action(self, depth, group=True):
        r = self.rng
        x = r.random()
        if depth and x < .4:
            return self.dyn(lambda: [self.action(depth - 1, group)])
        if group and x < .55:
            return {"t": "grp", "xs": [self.action(max(0, depth - 1), False) for _ in range(r.randint(1, 3))]}
        if x < .62:
            return {"t": "skip"}
        if x < .68:
            return {"t": "using", "lx": r.randint(1, NLEX), "arg": r.choice([NONESTR, self.word()])}
        if x < .78:
            return {"t": "usingd", "lx": r.randint(1, NLEX), "a": self.text()}
        return {"t": "act", "a": r.randrange(lang.NACT)}

    def target(self, depth):
        r = self.rng
        x = r.random()
        if depth and x < .35:
            return self.dyn(lambda: [self.target(depth - 1) for _ in range(r.choice([0, 1, 1, 2]))])
        if x < .5:
            return {"t": "int", "n": r.choice([-2, -1, 0, 1, 2])}
        if x < .62:
            return {"t": "lex", "lx": r.randint(1, NLEX), "arg": r.choice([NONESTR, self.word()])}
        if x < .74:
            return {"t": "derive", "lx": r.randint(1, NLEX), "a": self.any()}
        if x < .84:
            return {"t": "target", "a": self.text(), "n": r.choice([-1, 0, 1]), "d": r.random() < .6,
                    "lxs": [r.randint(1, NLEX) for _ in range(2)]}
        if x < .88:
            return {"t": "tgtdl", "a": self.text(), "g": self.any(), "h": self.text(), "lxs": [r.randint(1, NLEX) for _ in range(r.randint(1, 3))]}
        if x < .95:
            return {"t": "tgtix", "a": self.text(), "g": self.any(), "lxs": [r.randint(1, NLEX) for _ in range(r.randint(1, 3))]}
        return {"t": "list", "xs": [self.target(0) for _ in range(r.randint(0, 2))]}

    def rule(self):
        r = self.rng
        if r.random() < .2:
            return [self.dyn(lambda: [self.action(1)] + [self.target(1) for _ in range(r.randint(0, 2))])]
        return [self.action(2)] + [self.target(2) for _ in range(r.choice([0, 1, 1, 2]))]


class Serial:
    def __init__(self, comp):
        self.comp = comp

    def __call__(self, o, ns):
        """A simple result."""
        from parce import ruleitem, skip
        from parce.lexicon import Lexicon
        from parce.standardaction import StandardAction
        from parce.util import unroll
        if isinstance(o, StandardAction):
            return ["act", lang.action_index(o), [], []]
        if o is skip:
            return ["skip", 0, [], []]
        if isinstance(o, Lexicon):
            i, arg = self.comp.key(o)
            return ["lex", i, arg, []]
        if isinstance(o, bool) or not isinstance(o, (int, ruleitem.Item)):
            if o is ruleitem.a_number:
                return ["number", 0, [], []]
            return ["?" + repr(o)[:60], 0, [], []]
        if isinstance(o, int):
            return ["int", o, [], []]
        if isinstance(o, ruleitem.SubgroupAction):
            xs = [y for x in o.variations() for y in unroll(ruleitem.evaluate(x, ns))]
            return ["grp", 0, [], [self(x, ns) for x in xs]]
        if isinstance(o, ruleitem.DelegateAction):
            x = list(o.variations())
            r = self(x[0], ns)
            return ["using" if len(x) == 1 and r[0] == "lex" else "?", r[1], r[2], []]
        return ["?" + type(o).__name__, 0, [], []]


def expand(tree, limit=400):
    """All sequences of a variations tree."""
    def seqs(x):
        if isinstance(x, frozenset):
            return [s for y in x for s in seqs(y)]
        if isinstance(x, tuple):
            return [sum(c, ()) for c in itertools.islice(itertools.product(*(seqs(y) for y in x)), limit + 1)]
        return [(x,)]
    return seqs(tree)


def evaluations(job):
    seed, quick, count, nenv = job
    rng = random.Random(seed)
    from parce import ruleitem, rule as R
    from parce.util import unroll
    import parce
    data = {"lex": [{"consume": False, "ic": False, "rules": []} for _ in range(NLEX)]}
    comp = lang.Compiled(data)
    ser = Serial(comp)
    rx = re.compile(r"(?P<g_0>([ab(]*)(x)?(y)?)")
    res = []
    for _ in range(count):
        items = Gen(rng).rule()
        ev = []
        made = comp.items(comp.classes[0], items)
        # a language with the rule in a lexicon
        def L(cls):
            yield ("pattern", *made)
        L.__name__ = "L"
        cls = type(parce.Language)("Rules", (parce.Language,), {"__module__": "verif.generated", "L": parce.lexicon(L)})
        for _ in range(nenv):
            arg = "".join(rng.choice("ab(") for _ in range(rng.randint(0, 3)))
            full = "".join(rng.choice("ab(") for _ in range(rng.randint(0, 3))) + rng.choice(["", "x", "y", "xy"])
            m = rx.match(full)
            caps = [[-1, -1] if m.group(i) is None else list(m.span(i)) for i in (2, 3, 4)]
            rec = {"env": {"arg": codes(arg), "text": codes(m.group()), "caps": caps, "full": codes(full)},
                   "outs": [], "vars": [], "exc": ""}
            try:
                with cpu_limit(6):
                    ns = {"text": m.group(), "match": m}
                    both = dict(ns, arg=arg)
                    outs = []
                    # the usual way
                    pre = ruleitem.pre_evaluate_rule(("pattern", *made), arg)
                    outs.append([ser(o, ns) for o in ruleitem.evaluate_rule(pre[1:], m)])
                    # twice in advance
                    pre2 = ruleitem.pre_evaluate_rule(pre, arg)
                    outs.append([ser(o, ns) for o in ruleitem.evaluate_rule(pre2[1:], m)])
                    # by the lexicon
                    for rules in (cls.L(arg).rules, tuple(cls.L(arg))):
                        outs.append([ser(o, ns) for o in ruleitem.evaluate_rule(rules[0][1:], m)])
                    # all at once
                    outs.append([ser(o, both) for o in unroll(ruleitem.evaluate(made, both))])
                    # the match first, then the argument
                    x, _ = ruleitem.pre_evaluate(made, ns)
                    outs.append([ser(o, both) for o in unroll(ruleitem.evaluate(x, {"arg": arg}))])
                    # everything in advance
                    x, _ = ruleitem.pre_evaluate(made, both)
                    outs.append([ser(o, both) for o in unroll(x)])
                    rec["outs"] = outs
                    # possible results of what is left after the argument is known
                    vs = list(itertools.islice(ruleitem.variations(pre[1:]), 401))
                    tv = expand(ruleitem.variations_tree(pre[1:]))
                    for v in (vs, tv):
                        s = {repr(y): y for y in ([ser(o, ns) for o in x] for x in v)} if len(v) <= 400 else {}
                        rec["vars"].append(list(s.values()) or ([[["empty", 0, [], []]]] if not v else []))
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"items": items, "ev": ev, "case": {"items": items}})
        if sum(1 for r in res if r["ev"] and r["ev"][-1]["exc"]) >= 3:
            break
    return res
