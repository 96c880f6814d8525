"""Drives tree builders and documents through edits, records the trees."""
import random

from . import bundled, lang, px
from .lexdrive import failures
from .core import codes, cpu_limit, Hang, where


class Target:
    """What keeps the tree: a TreeBuilder or a Document."""
    def __init__(self, kind, root, text):
        import parce
        from parce.treebuilder import TreeBuilder
        from parce.work import Worker
        self.kind = kind
        self.upd = []
        self.peeks = []
        if kind == "builder":
            self.text = text
            self.builder = TreeBuilder(root)
            self.builder.connect("updated", self.slot)
            self.builder.rebuild(text)
        else:
            self.builder = TreeBuilder(root)
            self.doc = parce.Document(root, text, worker=Worker(self.builder))
            self.doc.connect("tree_updated", self.slot)
        self.root = self.builder.root
        self.upd.clear()
        self.builder.connect("peek", lambda start, tree: self.peeks.append((start, tree)))

    def slot(self, start, end):
        self.upd.append([start, end])

    def get_text(self):
        return self.text if self.kind == "builder" else self.doc.text()

    def change(self, cs):
        """cs: list of (start, end, text), sorted, not overlapping."""
        if self.kind == "builder":
            t = self.text
            (a, b, s), = cs
            t = t[:a] + s + t[b:]
            self.text = t
            self.builder.rebuild(t, False, a, b - a, len(s))
        elif len(cs) == 1:
            (a, b, s), = cs
            self.doc[a:b] = s
        else:
            with self.doc:
                for a, b, s in reversed(cs):
                    self.doc[a:b] = s

    def set_root(self, lx):
        if self.kind == "builder":
            self.builder.rebuild(self.text, lx)
        else:
            self.doc.set_root_lexicon(lx)

    def get_root(self):
        return self.builder.root if self.kind == "builder" else self.doc.get_root(True)

    def open(self):
        return list(self.builder.lexicons if self.kind == "builder" else self.doc.open_lexicons())


def random_changes(rng, text, piece, batch):
    n = rng.choice([1, 1, 2, 3]) if batch else 1
    pts = sorted(rng.randint(0, len(text)) for _ in range(n))
    cs, last = [], 0
    for i, a in enumerate(pts):
        lim = pts[i + 1] if i + 1 < n else len(text)
        if i and a <= last:
            a = last + 1
        if a > lim or a > len(text):
            continue
        b = min(lim, a + rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 20]))
        s = piece() if rng.random() < .7 or a == b else ""
        if text[a:b] == s:
            continue
        cs.append((a, b, s))
        last = b
    return cs


def fresh_tree(ids, root, text):
    """Tree and open lexicons of a parse from scratch. Only used to choose
    the histories that are most worth judging, never to judge."""
    from parce.treebuilder import TreeBuilder
    if root is None:
        return [], []
    b = TreeBuilder(root)
    return px.flat(ids, b.tree(text)), [ids.key(l) for l in b.lexicons]


def paths(flat):
    """The tokens with their ancestors."""
    stack, res = [], []
    for n in flat:
        del stack[n[0] - 1:]
        if n[1] == "C":
            stack.append(n[2:])
        else:
            res.append((n[2], n[2:], list(stack)))
    return res


def odd_range(old, new, d, start, end):
    """True if tokens outside the range seem to have changed."""
    def before(ts):
        return [t[1:] for t in ts if t[0] + len(t[1][1]) <= start]
    def behind(ts, d):
        return [[t[0] + d, t[1][1:], t[2]] for t in ts if t[0] + d >= end]
    a, b = paths(old), paths(new)
    return start > end or before(a) != before(b) or behind(a, d) != behind(b, 0)


def odd_peek(tree, part):
    """True if a preview does not seem to be a part of the tree."""
    a, b = paths(tree), paths(part)
    return not b or not any(x == b[0] and a[i:i+len(b)] == b for i, x in enumerate(a))


def choose(res, count, most=8):
    """Keep the histories that seem odd (up to where they do) and count others."""
    odd = [t for t in res if t["odd"]]
    for t in odd:
        del t["ev"][t["odd"]:]
    odd.sort(key=lambda t: len(t["ev"]))
    res = odd[:most] + [t for t in res if not t["odd"]][:count]
    for t in res:
        del t["odd"]
    return res


def run_history(rng, ids, kind, root, roots, text, piece, nsteps, fresh, weights):
    """ids: projection; roots: list of lexicons to change to; fresh: record
    the events of a fresh run (uninterpreted language)."""
    from parce.lexer import Lexer
    ev = []
    prev = None
    cur = root
    case = {"kind": kind, "root": repr(root), "text": text, "ops": []}
    old = text
    tgt = None
    odd = 0
    for step in range(nsteps + 1):
        rec = {"ss": [], "fin": [], "root": [], "tree": [], "open": [], "same": True, "rootlex": [], "par": [],
               "copy": [], "cpar": [], "prevcopy": [], "upd": [], "nupd": 0, "peeks": [], "evs": [], "fopen": [], "exc": ""}
        try:
            with cpu_limit(5):
                if step == 0:
                    tgt = Target(kind, root, text)
                    tgt.builder.peek_threshold = thres = rng.choice([0, 1, 2, 5, 10])
                else:
                    tgt.upd.clear()
                    tgt.peeks.clear()
                    x = rng.random()
                    if x < weights.get("root", .08):
                        cur = rng.choice(roots)
                        case["ops"].append(["root", repr(cur)])
                        tgt.set_root(cur)
                        rec["root"] = ids.key(cur)
                    elif kind == "document" and x < .2:
                        op = rng.choice(["undo", "redo", "undo"])
                        case["ops"].append([op])
                        getattr(tgt.doc, op)()
                        new = tgt.doc.text()
                        if new != old:
                            rec["ss"] = [[{"s": 0, "e": len(old), "t": codes(new)}]]
                    else:
                        cs = random_changes(rng, old, piece, kind == "document")
                        case["ops"].append(["edit", cs])
                        if cs:
                            tgt.change(cs)
                            rec["ss"] = [[{"s": a, "e": b, "t": codes(s)} for a, b, s in cs]]
                now = tgt.get_text()
                r = tgt.get_root()
                rec["same"] = r is tgt.root and (kind == "builder" or tgt.doc.builder() is tgt.builder)
                rec["rootlex"] = ids.key(r.lexicon)
                rec["tree"] = px.flat(ids, r)
                rec["par"] = px.parents(r)
                rec["open"] = [ids.key(l) for l in tgt.open()]
                if step:
                    rec["upd"] = tgt.upd[-1] if tgt.upd else []
                    rec["nupd"] = len(tgt.upd)
                    rec["peeks"] = [{"start": a, "n": thres, "tree": px.flat(ids, p), "par": px.parents(p), "lex": ids.key(p.lexicon)}
                                    for a, p in tgt.peeks]
                if prev is not None:
                    rec["prevcopy"] = px.flat(ids, prev)
                prev = r.copy()
                rec["copy"] = px.flat(ids, prev)
                rec["cpar"] = px.parents(prev)
                if fresh and cur is not None:
                    lx = Lexer([cur])
                    rec["evs"] = px.events(ids, list(lx.events(now)))
                    rec["fopen"] = [ids.key(l) for l in lx.lexicons[1:]]
                if ((rec["tree"], rec["open"]) != fresh_tree(ids, cur, now) or rec["copy"] != rec["tree"]
                        or rec["par"] != rec["cpar"] or not rec["same"]
                        or any(odd_peek(rec["tree"], p["tree"]) for p in rec["peeks"])
                        or ev and rec["prevcopy"] != ev[-1]["tree"]
                        or rec["upd"] and odd_range(ev[-1]["tree"], rec["tree"], len(now) - len(old), *rec["upd"])):
                    odd = step + 1
        except Hang:
            rec["exc"] = "Hang"
        except Exception as e:
            rec["exc"] = where(e)
        ev.append(rec)
        if rec["exc"]:
            odd = odd or step + 1
        if odd:
            break
        old = now
    return {"text": codes(text), "root": ids.key(root), "ev": ev, "case": case, "odd": odd}


def generated(job):
    seed, quick, count, nsteps, maxlen, kinds, weights, more = job
    rng = random.Random(seed)
    res = []
    for _ in range(count * more):
        data = lang.Gen(rng, bounded=True).language()
        comp = lang.Compiled(data)
        ids = px.GenIds(comp)
        n = len(data["lex"])
        roots = [comp.lexicon(i) for i in range(1, n + 1)] + [None]
        roots += [comp.lexicon(rng.randint(1, n), a) for a in ("a", "b")] + [comp.lexicon(1)]
        corp = lang.corpus(data, rng)
        piece = lambda: rng.choice(corp) if rng.random() < .6 else rng.choice(lang.ALPHA)
        text = lang.rich_text(data, rng, rng.randint(0, maxlen))
        kind = rng.choice(kinds)
        if kind == "document" and not text:
            text = "a"      # a document does not parse an empty initial text
        tr = run_history(rng, ids, kind, rng.choice(roots[:-1]) if rng.random() < .1 else comp.lexicon(1),
                         roots, text, piece, nsteps, False, weights)
        tr["langdata"] = data
        res.append(tr)
        if sum(bool(t["odd"]) for t in res) > 12:
            break
    return choose(res, count)


def examples(job):
    seed, quick, exts, count, nsteps, size, kinds, weights, more = job
    rng = random.Random(seed)
    all_ = bundled.texts()
    res = []
    for k in range(count * more):
        ext, name, text = all_[(seed + k * 7) % len(all_)]
        if exts and ext not in exts:
            continue
        ids = px.Ids()
        root = bundled.lexicon(name)
        other = bundled.lexicon(rng.choice(all_)[1])
        doc = bundled.snippet(rng, text, size // 2, size)
        piece = lambda: (bundled.snippet(rng, text, 1, 6) if rng.random() < .5
                         else rng.choice("\"'<>{}()[]\\%#/*=;:@$&-+.,\n\n  aZ09_"))
        tr = run_history(rng, ids, rng.choice(kinds), root, [root, other, None], doc, piece, nsteps, True, weights)
        res.append(tr)
        if sum(bool(t["odd"]) for t in res) > 12:
            break
    return choose(res, count)


def midbuild(job):
    """Changes arriving at every stage of, and during, the build."""
    from parce.treebuilder import TreeBuilder
    seed, quick, count, nruns, maxlen, proot, more = job
    rng = random.Random(seed)
    res = []
    for _ in range(count * more):
        data = lang.Gen(rng, bounded=True).language()
        comp = lang.Compiled(data, hook=True)
        ids = px.GenIds(comp)
        n = len(data["lex"])
        roots = [comp.lexicon(i) for i in range(1, n + 1)] + [None, comp.lexicon(1, "a")]
        corp = lang.corpus(data, rng)
        piece = lambda: rng.choice(corp) if rng.random() < .6 else rng.choice(lang.ALPHA)
        text = lang.rich_text(data, rng, rng.randint(1, maxlen))
        case = {"text": text, "runs": []}
        first = text
        ev = []
        prob = {k: rng.choice([0, .15, .5]) for k in ("lex", "started", "build", "replace", "done", "event", "updated")}
        prob["lex"] = rng.choice([0, .03, .1, .3])

        class Builder(TreeBuilder):
            def start_processing(self):
                for stage in self.process():
                    inject(stage)

        b = Builder(comp.lexicon(1))
        S = {"text": text, "root": comp.lexicon(1), "left": 0, "nested": 0, "odd": False}
        rec = None

        def change(where_):
            t = S["text"]
            if rng.random() < proot:
                S["root"] = rng.choice(roots)
                case["runs"][-1].append([where_, "root", repr(S["root"])])
                rec["root"] = ids.key(S["root"])
                b.rebuild(t, S["root"])
                return
            cs = random_changes(rng, t, piece, False)
            if not cs:
                return
            (a, e, s), = cs
            S["text"] = t[:a] + s + t[e:]
            rec["ss"].append([{"s": a, "e": e, "t": codes(s)}])
            case["runs"][-1].append([where_, a, e, s])
            b.rebuild(S["text"], False, a, e - a, len(s))

        def inject(where_):
            if S["left"] > 0 and rng.random() < prob.get(where_, 0):
                S["left"] -= 1
                if where_ in ("done", "updated"):
                    S["nested"] += 1
                change(where_)

        def finished():
            rec["fin"].append({"k": len(rec["ss"]), "root": ids.key(S["root"]), "tree": px.flat(ids, b.root)})
            S["odd"] |= rec["fin"][-1]["tree"] != fresh()[0]

        def fresh():
            hook, comp.hook = comp.hook, lambda: None
            try:
                return fresh_tree(ids, S["root"], S["text"])
            finally:
                comp.hook = hook

        b.rebuild(text)
        root0 = b.root
        comp.hook = lambda: inject("lex")
        b.connect("started", lambda: inject("started"))
        b.connect("replace", lambda: inject("event"))
        upd = []
        b.connect("updated", lambda s, e: (upd.append([s, e]), inject("updated")))
        b.connect("finished", finished)
        for run in range(nruns):
            rec = {"ss": [], "fin": [], "root": [], "tree": [], "open": [], "same": True, "rootlex": [], "par": [],
                   "copy": [], "cpar": [], "prevcopy": [], "upd": [], "nupd": 0, "peeks": [], "evs": [], "fopen": [], "exc": ""}
            case["runs"].append([])
            upd.clear()
            old = S["text"]
            S["left"] = rng.choice([0, 1, 1, 2, 3, 5]) if run else 0
            S["nested"] = 0
            try:
                with cpu_limit(5):
                    if run:
                        change("first")
                    if b.busy or b.changes:
                        rec["exc"] = "still busy"
                    rec["tree"] = px.flat(ids, b.root)
                    rec["par"] = px.parents(b.root)
                    rec["open"] = [ids.key(l) for l in b.lexicons]
                    rec["same"] = b.root is root0
                    rec["rootlex"] = ids.key(b.root.lexicon)
                    if not S["nested"] and len(upd) == 1:
                        rec["upd"] = upd[0]
                        S["odd"] |= odd_range(ev[-1]["tree"] if ev else [], rec["tree"], len(S["text"]) - len(old), *upd[0])
                    if (rec["tree"], rec["open"]) != fresh() or not rec["same"]:
                        S["odd"] = True
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            ev.append(rec)
            if rec["exc"] or S["odd"]:
                break
        res.append({"text": codes(first), "root": ids.key(comp.lexicon(1)), "ev": ev, "case": case, "langdata": data,
                    "odd": len(ev) if rec["exc"] or S["odd"] else 0})
        if sum(bool(t["odd"]) for t in res) > 12:
            break
    return choose(res, count)


def combined(job):
    """Sequences of changes combined in a Changes object."""
    seed, quick, count, n = job
    import random
    from parce.treebuilderutil import Changes
    rng = random.Random(seed)
    res = []
    for _ in range(count):
        old = text = "".join(rng.choice("abc") for _ in range(rng.randint(0, 12)))
        c = Changes()
        root, ev, log = 0, [], []
        for i in range(rng.randint(1, n)):
            s = rng.randint(0, len(text))
            e = rng.choice([s, len(text), rng.randint(s, len(text))])
            new = "".join(rng.choice("abc") for _ in range(rng.choice([0, 0, 1, 2, 5])))
            text = text[:s] + new + text[e:]
            kw = {"start": s, "removed": e - s, "added": len(new)}
            if i and e - s + len(new) and rng.random() < .15:
                # all text behind start is replaced
                new = "".join(rng.choice("abc") for _ in range(rng.choice([0, 1, 3])))
                text = ev[-1]["str"][:s] + new if s <= len(ev[-1]["str"]) else text
                kw = {"start": s}
            if rng.random() < .2:
                root = rng.randint(1, 3)
                kw["root_lexicon"] = root
            elif rng.random() < .1:
                kw["root_lexicon"] = False
            q = {"n": codes(text), "str": text, "text": [], "s": 0, "r": 0, "a": 0, "root": 0, "wantroot": root, "has": False,
                 "pos": [], "np": [], "exc": ""}
            log.append([text, kw])
            try:
                c.add(text, **kw)
                q.update(text=codes(c.text), s=c.start, r=c.removed, a=c.added, root=int(c.root_lexicon), has=bool(c.has_changes()))
                q["pos"] = list(range(len(old) + 1))
                q["np"] = [c.new_position(p) for p in q["pos"]]
            except Exception as e:
                q["exc"] = where(e)
            ev.append(q)
        for q in ev:
            del q["str"]
        res.append({"old": codes(old), "ev": ev, "case": {"old": old, "changes": log}})
    return res
