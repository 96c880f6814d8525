"""Formats texts with stub themes."""
import random

from . import lang, px
from .core import codes, cpu_limit, Hang, where
from .navdrive import Numbered, NOEND

SIMPLE = ["text", "keyword", "name", "literal number", "literal string", "comment", "name tag", "delimiter operator"]


class Fmt(frozenset):
    """A text format: a set of tags, the last digit is the property."""
    def __add__(self, other):
        new = {y % 10 for y in other}
        return Fmt(other | {x for x in self if x % 10 not in new})


def theme(rng, dense):
    from parce.theme import AbstractTheme
    n = lambda: [t for t in (1, 2, 3) if rng.random() < .4]
    data = {"base": [t + 10 for t in n()] if rng.random() < .7 else [], "addbase": False,
            "tab": [n() if rng.random() < dense else [] for _ in range(lang.NACT)],
            "unparsed": [20] if rng.random() < .35 else []}

    class Theme(AbstractTheme):
        def baseformat(self, role="window", state="default"):
            return Fmt(data["base"]) if role == "window" else Fmt()
        def textformat(self, action):
            if str(action) == "_Unparsed":
                return Fmt(data["unparsed"])
            return Fmt(data["tab"][lang.action_index(action)])
    return Theme(), data


class Watch:
    """A FormatContext that remembers the themes."""
    def __init__(self, themes):
        self.themes, self.log, self.starts, self.dones, self.order = themes, [], 0, 0, True
    def note(self, fc):
        self.order &= not self.dones
        self.log.append(1 + next((k for k, th in enumerate(self.themes) if th is fc.theme), -1))
    def start(self, fc):
        self.order &= not self.log
        self.starts += 1
        self.note(fc)
    def switch(self, fc):
        self.order &= self.starts == 1
        self.note(fc)
    def done(self):
        self.dones += 1


def tags(f):
    return [] if f is None else sorted(f)


def formatting(job):
    seed, quick, count, nq, maxlen = job
    rng = random.Random(seed)
    import parce
    from parce.formatter import Formatter, SimpleFormatter
    from parce.work import Worker
    from parce.treebuilder import TreeBuilder
    res = []
    for _ in range(count):
        data = lang.Gen(rng, bounded=False, nlex=rng.choice([2, 3, 4, 5])).language()
        comp = lang.Compiled(data, split=True)
        ids = px.GenIds(comp)
        text = lang.rich_text(data, rng, rng.randint(0, maxlen)) or "a"
        nlex = len(data["lex"])
        ev = []
        try:
            with cpu_limit(6):
                root = parce.root(comp.lexicon(1), text)
                fl = px.flat(ids, root)
                doc = parce.Document(comp.lexicon(1), text, worker=Worker(TreeBuilder(comp.lexicon(1))))
        except Hang:
            continue
        num = Numbered(root)
        ctxs = [i for i, x in enumerate(num.nodes) if x.is_context]
        for _ in range(nq):
            rec = {"themes": [], "c": 0, "s": 0, "e": NOEND, "ranges": [], "pieces": [], "dpieces": [], "exc": "",
                   "asks": [], "watch": [], "order": True, "got": True}
            objs = []
            try:
                with cpu_limit(5):
                    conv = tags
                    if rng.random() < .1:
                        f = SimpleFormatter()
                        conv = lambda x: [] if x is None else [SIMPLE.index(x) + 1 if x in SIMPLE else -1]
                        rec["themes"] = [{"lang": 0, "base": [], "addbase": False, "unparsed": [],
                                          "tab": [[i + 1] for i in range(lang.NACT)]}]
                    else:
                        f = Formatter(factory=lambda x: x or None)
                        dense = rng.choice([.3, .8])
                        for l in range(3):
                            if rng.random() < [.97, .4, .5][l]:
                                th, d = theme(rng, dense)
                                d["addbase"] = rng.random() < .4
                                f.add_theme(th, comp.classes[l - 1] if l else None, d["addbase"])
                                rec["themes"].append(dict(d, lang=l))
                                objs.append(th)
                        if rng.random() < .2:
                            g = Formatter(factory=lambda x: x or None)
                            g.add_theme(theme(rng, .5)[0])
                            g.add_theme(theme(rng, .5)[0], comp.classes[0])
                            g.copy_themes(f)
                            # an empty base is the same as no base
                            f = g
                        elif rng.random() < .1 and len(rec["themes"]) > 1:
                            d = rec["themes"].pop()
                            objs.pop()
                            f.remove_theme(comp.classes[d["lang"] - 1])
                    if objs:
                        for k, l in enumerate([None, *comp.classes[:2]]):
                            want = [th for th, d in zip(objs, rec["themes"]) if d["lang"] == k]
                            rec["got"] &= f.get_theme(l) is (want[0] if want else None)
                            a = rng.randrange(lang.NACT)
                            role = rng.choice(["window", "window", "selection"])
                            rec["asks"].append({"lang": k, "action": a + 1, "format": conv(f.textformat(lang.actions()[a], l)),
                                                "window": role == "window", "base": conv(f.baseformat(role, "default", l))})
                    n = len(text)
                    s = rng.choice([0, rng.randint(0, n), rng.randint(0, n)])
                    e = rng.choice([None, n, rng.randint(s, n), rng.randint(s, n)])
                    rec["c"] = c = rng.choice(ctxs) if rng.random() < .15 else 0
                    rec["s"], rec["e"] = s, NOEND if e is None else e
                    node = num.nodes[c]
                    rec["ranges"] = [[r.pos, r.end, conv(r.textformat)] for r in f.format_ranges(node, s, e)]
                    if objs and rng.random() < .3:
                        w = Watch(objs)
                        again = [[r.pos, r.end, conv(r.textformat)] for r in f.format_ranges(node, s, e, w)]
                        rec["watch"] = w.log
                        rec["order"] = w.order and again == rec["ranges"] and w.starts == w.dones == (1 if w.log else 0)
                    rec["pieces"] = [[codes(x), conv(y)] for x, y in f.format_text(text, node, s, e)]
                    if c == 0 and e is not None and e > s:
                        cur = parce.Cursor(doc, s, e)
                        rec["dpieces"] = [[codes(x), conv(y)] for x, y in f.format_document(cur)]
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"fl": fl, "text": codes(text), "langs": [comp.part(i) + 1 for i in range(1, nlex + 1)], "root": 1, "ev": ev,
                    "case": {"text": text, "lang": data}})
        if sum(1 for r in res if r["ev"] and r["ev"][-1]["exc"]) >= 3:
            break
    return res
