"""Drives real documents through histories; records events for DocTrace."""
import random

from .core import codes, cpu_limit, Hang

NONE = -1000000


def _n(x):
    return NONE if x is None else x


class Recorder:
    """One real document and the observer's view on it."""

    def __init__(self, cls, text):
        self.doc = cls(text)
        self.init = text
        self.ev = []
        self.notes = []
        self.mirror = text
        self.depth = 0
        self.pend = []
        self.cursors = []
        self.plain = not hasattr(self.doc, "connect")
        d = self.doc
        if not self.plain:
            d.connect("text_change", self._text_change)
            d.connect("text_changed", lambda: None)
            for name in ("modification_changed", "undo_available", "redo_available"):
                d.connect(name, lambda b, name=name: self.notes.append([name, bool(b)]))

    def _text_change(self, pos, removed, added):
        self.notes.append(["text_change", pos, removed, added])
        t = self.doc.text()
        self.mirror = self.mirror[:pos] + t[pos:pos + added] + self.mirror[pos + removed:]

    def call(self, rec, fn):
        self.notes = []
        ret, exc = "", ""
        try:
            with cpu_limit(20):
                r = fn()
                if rec["op"] in ("get", "geti"):
                    ret = r
        except Hang:
            exc = "Hang"
        except Exception as e:
            exc = type(e).__name__
        d = self.doc
        try:
            # the text, read in different ways
            self.reads = getattr(self, "reads", 0) + 1
            k = self.reads % 8
            text = (str(d) if k == 1 else (d + "!")[:-1] if k == 3 else ("!" + d)[1:] if k == 5 else d[:] if k == 7 else d.text())
            rec.update(exc=exc, ret=codes(ret), text=codes(text),
                       mirror=codes(self.mirror) if not self.plain else codes(d.text()),
                       notes=self.notes,
                       rev=d.revision() if not self.plain else 0,
                       mod=bool(d.modified) if not self.plain else False,
                       cu=bool(d.can_undo()) if not self.plain else False,
                       cr=bool(d.can_redo()) if not self.plain else False,
                       curs=[[c.pos, _n(c.end)] for c in self.cursors])
        except Exception as e:      # the document is unusable
            rec.update(exc="Unusable" + type(e).__name__, ret=[], text=[], mirror=[], notes=[],
                       rev=-1, mod=False, cu=False, cr=False, curs=[])
        self.ev.append(rec)
        return exc

    # -- operations --------------------------------------------------------

    def set(self, s, e, t, form):
        d = self.doc
        rec = {"op": "set", "s": _n(s), "e": _n(e), "t": codes(t)}
        if form == "slice":
            def fn(): d[s:e] = t
        elif form == "del":
            def fn(): del d[s:e]
        elif form == "insert":
            def fn(): d.insert(s, t)
        elif form == "append":
            def fn(): d.append(t)
        elif form == "iadd":
            def fn():
                x = d
                x += t
                assert x is d
        elif form == "cursor":
            from parce.document import Cursor
            def fn(): d[Cursor(d, s, e)] = t
        return self.call(rec, fn)

    def seti(self, i, t):
        d = self.doc
        def fn():
            if t:
                d[i] = t
            else:
                del d[i]
        return self.call({"op": "seti", "s": i, "t": codes(t)}, fn)

    def get(self, s, e):
        d = self.doc
        return self.call({"op": "get", "s": _n(s), "e": _n(e)}, lambda: d[s:e])

    def geti(self, i):
        d = self.doc
        return self.call({"op": "geti", "s": i}, lambda: d[i])

    def settext(self, t):
        return self.call({"op": "settext", "t": codes(t)}, lambda: self.doc.set_text(t))

    def enter(self):
        self.depth += 1
        return self.call({"op": "enter"}, self.doc.__enter__)

    def exit(self):
        self.depth -= 1
        return self.call({"op": "exit"}, lambda: self.doc.__exit__(None, None, None))

    def cancel(self):
        n, self.depth = self.depth, 0
        def fn():
            e = ValueError("cancel")
            for i in range(n):
                self.doc.__exit__(ValueError, e, None)
        return self.call({"op": "cancel"}, fn)

    def simple(self, op):
        fn = {"undo": "undo", "redo": "redo", "clear": "clear_undo_redo"}[op]
        return self.call({"op": op}, getattr(self.doc, fn))

    def setmod(self, b):
        def fn(): self.doc.modified = b
        return self.call({"op": "setmod", "b": int(b)}, fn)

    def cursor(self, s, e):
        from parce.document import Cursor
        def fn(): self.cursors.append(Cursor(self.doc, s, e))
        return self.call({"op": "cursor", "s": s, "e": _n(e)}, fn)

    def setcur(self, i, s, e):
        def fn(): self.cursors[i].select(s, e)
        return self.call({"op": "setcur", "i": i + 1, "s": s, "e": _n(e)}, fn)

    # -- search and replace ------------------------------------------------

    def search(self, rec, s, e, count, fn):
        rec.update(s=_n(s), e=_n(e), count=count)
        return self.call(rec, fn)


def merged_noop(text, pend):
    """True if a merged change in the batch does not change the text."""
    starts = {}
    for s, e, t in pend:
        starts.setdefault(s, []).append((e, t))
    return any(text[s:max(e for e, t in c)] == "".join(t for e, t in c) for s, c in starts.items())


class Pending:
    """Keeps track of the registered changes, to avoid merged no-ops."""
    def __init__(self):
        self.p = []


WORDS = ["", "a", "b", "ab", "\n", "xyz", "é", "a\nb", "\U0001f600"]


def random_text(rng, n, alpha="ab\nc é"):
    return "".join(rng.choice(alpha) for _ in range(rng.randrange(n + 1)))


def random_history(rng, cls, nops, weights, maxlen=10, alpha="ab\nc é"):
    """One random history; weights: dict op -> weight."""
    r = Recorder(cls, random_text(rng, maxlen, alpha))
    pend = []
    names, ws = zip(*weights.items())
    while len(r.ev) < nops:
        op = rng.choices(names, ws)[0]
        text = r.doc.text()
        L = len(text)
        if op in ("undo", "redo", "clear", "setmod", "cursor", "setcur") and r.plain:
            continue
        if op == "set":
            form = rng.choice(["slice", "slice", "slice", "del", "insert", "append", "iadd", "cursor"])
            if r.plain and form == "cursor":
                form = "slice"
            t = rng.choice(WORDS)
            if rng.random() < .15 and L:    # partly equal to the old text
                i = rng.randrange(L)
                t = text[i:i + rng.randrange(4)]
            x = rng.random()
            if form == "cursor":
                s = rng.randrange(L + 1)
                e = rng.choice([None, rng.randrange(s, L + 1)])
            elif x < .7:
                s = rng.randrange(L + 1)
                e = min(L, s + rng.choice([0, 0, 1, 2, 3, 5]))
            else:
                s = rng.choice([None] + list(range(-L - 2, L + 3)))
                e = rng.choice([None] + list(range(-L - 2, L + 3)))
            if form == "del":
                t = ""
            elif form == "insert":
                s = e = rng.randrange(L + 1)
            elif form in ("append", "iadd"):
                s = e = L
            if not t and form in ("insert", "append", "iadd"):
                t = "q"
            if r.depth:
                a, b, _ = slice(s, e).indices(L)
                b = max(a, b)
                if text[a:b] != t:
                    if merged_noop(text, pend + [(a, b, t)]):
                        continue
                    pend.append((a, b, t))
            elif L > 24 and len(t) > 1:
                continue
            exc = r.set(s, e, t, form)
        elif op == "seti":
            i = rng.randrange(-L - 2, L + 2)
            t = rng.choice(WORDS)
            if r.depth:
                j = i + L if i < 0 else i
                if 0 <= j < L and text[j] != t:
                    if merged_noop(text, pend + [(j, j + 1, t)]):
                        continue
                    pend.append((j, j + 1, t))
            exc = r.seti(i, t)
        elif op == "get":
            exc = r.get(rng.choice([None] + list(range(-L - 2, L + 3))),
                        rng.choice([None] + list(range(-L - 2, L + 3))))
        elif op == "geti":
            exc = r.geti(rng.randrange(-L - 2, L + 2))
        elif op == "settext":
            exc = r.settext(random_text(rng, maxlen, alpha))
        elif op == "enter":
            if r.depth >= 3:
                continue
            exc = r.enter()
        elif op == "exit":
            if not r.depth:
                continue
            exc = r.exit()
            if not r.depth:
                pend = []
        elif op == "cancel":
            if not r.depth:
                continue
            exc = r.cancel()
            pend = []
        elif op in ("undo", "redo", "clear"):
            exc = r.simple(op)
        elif op == "setmod":
            exc = r.setmod(rng.random() < .4)
        elif op == "cursor":
            if len(r.cursors) >= 5:
                continue
            s = rng.randrange(L + 1)
            exc = r.cursor(s, rng.choice([None, rng.randrange(s, L + 1), s]))
        elif op == "setcur":
            if not r.cursors:
                continue
            s = rng.randrange(L + 1)
            exc = r.setcur(rng.randrange(len(r.cursors)), s, rng.choice([None, rng.randrange(s, L + 1)]))
        elif op in ("replace", "re_sub", "translate", "trim"):
            if r.plain or L > 40:
                continue
            x = search_op(rng, op, r, text, pend)
            if x is None:
                continue
            changes, exc = x
            if r.depth:
                pend.extend(changes)
        if exc and exc not in ("RuntimeError", "IndexError"):
            break
    return {"init": codes(r.init), "ev": r.ev, "case": {"cls": cls.__name__, "init": r.init}}


def small_batches(cls, text, maxchanges, alphabet=("", "x", "xy"), cursors=()):
    """Exhaustive: every batch of <= maxchanges single changes on text."""
    import itertools
    L = len(text)
    singles = [(s, e, t) for s in range(L + 1) for e in range(s, L + 1) for t in alphabet
               if text[s:e] != t]
    for n in range(1, maxchanges + 1):
        for batch in itertools.product(singles, repeat=n):
            if merged_noop(text, list(batch)):
                continue
            r = Recorder(cls, text)
            if not r.plain:
                for p, e in cursors:
                    r.cursor(p, e)
            r.enter()
            for s, e, t in batch:
                r.set(s, e, t, "slice")
            r.exit()
            if not r.plain:
                r.simple("undo")
                r.simple("redo")
            yield {"init": codes(text), "ev": r.ev, "case": {"cls": cls.__name__, "init": text, "batch": batch}}


# -- search and replace -----------------------------------------------------

def _changes(text, s, e, count, expr, repl, flags=0):
    """The changes to expect, only to stay out of the way of merged no-ops."""
    import re
    a = s or 0
    region = text[s:e]
    res = []
    for i, m in enumerate(re.finditer(expr, region, flags), 1):
        res.append((a + m.start(), a + m.end(), repl(m)))
        if i == count:
            break
    return [c for c in res if text[c[0]:c[1]] != c[2]]


def search_op(rng, op, r, text, pend):
    import re
    from . import lang
    L = len(text)
    s = rng.choice([0, 0, rng.randrange(L + 1)])
    e = rng.choice([None, None, L, rng.randrange(s, L + 1), rng.randrange(-L - 1, L + 3)])
    count = rng.choice([0, 0, 0, 1, 2, 3])
    d = r.doc
    def word(n):
        if L and rng.random() < .6:
            i = rng.randrange(L)
            return text[i:i + rng.randint(1, n)]
        return "".join(rng.choice("ab\n c.") for _ in range(rng.randint(0, n)))
    def args(kw):
        a = {"start": s, "end": e, "count": count}
        if op == "trim":
            del a["count"]
        return {k: v for k, v in a.items() if v != (None if k == "end" else 0) or rng.random() < .5}
    if op == "replace":
        old, new = word(3), rng.choice(["", "x", word(3), word(2)])
        ch = _changes(text, s, e, count, re.escape(old), lambda m: new) if old != new else []
        rec = {"op": op, "old": codes(old), "new": codes(new)}
        kw = args({})
        fn = lambda: d.replace(old, new, **kw)
    elif op == "trim":
        count = 0
        ch = _changes(text, s, e, 0, "[ \t]+$", lambda m: "", re.M)
        rec = {"op": op}
        kw = args({})
        fn = lambda: d.trim(**kw)
    elif op == "translate":
        keys = {w for w in (word(3) for _ in range(rng.randint(1, 4))) if w}
        if not keys:
            return
        m = {k: rng.choice(["", "x", word(3), k]) for k in sorted(keys)}
        whole = rng.random() < .4
        expr = "|".join(re.escape(k) for k in sorted(m, key=lambda k: -len(k)))
        if whole:
            expr = r"\b(?:%s)\b" % expr
        ch = _changes(text, s, e, count, expr, lambda x: m[x.group()])
        rec = {"op": op, "map": [[codes(k), codes(v)] for k, v in m.items()], "whole": whole}
        kw = args({})
        if whole or rng.random() < .5:
            kw["whole_words"] = whole
        fn = lambda: d.translate(m, **kw)
    else:
        g = lang.Gen(rng, bounded=False)
        k = rng.random()
        if k < .25:
            p, ng = lang.rep(lang.cset(rng.choice(["a", "ab", " ", "\n"])), 0, rng.choice([1, 99])), 0
        elif k < .5:
            p, ng = g.simple(), 0
        elif k < .6:
            p, ng = rng.choice([{"t": "eol"}, {"t": "bol"}, {"t": "la", "x": g.atom(), "neg": rng.random() < .5}]), 0
        else:
            p, ng = g.grouped()
        tpl = []
        for _ in range(rng.randint(0, 3)):
            if rng.random() < .5:
                tpl.append({"t": "lit", "s": codes(rng.choice(["x", "a", "\n", "ab"])), "n": 0})
            else:
                tpl.append({"t": "grp", "s": [], "n": rng.randint(0, ng)})
        ic = rng.random() < .3
        flags = re.M | (re.I if ic else 0)
        expr = lang.rx(p)
        f = lambda m: "".join("".join(map(chr, x["s"])) if x["t"] == "lit" else m.group(x["n"]) or "" for x in tpl)
        ch = _changes(text, s, e, count, expr, f, flags)
        rec = {"op": op, "p": p, "ng": ng, "ic": ic, "tpl": tpl}
        kw = args({})
        repl = f
        if rng.random() < .5:
            repl = "".join("".join(map(chr, x["s"])) if x["t"] == "lit" else "\\g<%d>" % x["n"] for x in tpl)
        if rng.random() < .5:
            expr = re.compile(expr, flags)
        else:
            kw["re_flags"] = flags
        fn = lambda: d.re_sub(expr, repl, **kw)
    if sum(len(c[2]) for c in ch) > 60 or merged_noop(text, (pend if r.depth else []) + ch):
        return
    return ch, r.search(rec, s, e, count, fn)
