"""Drives Transformers, records the calls of the transform methods."""
import random
import sys
import types

from . import bundled, lang, px
from .core import codes, cpu_limit, Hang, where
from .lexdrive import failures


def item(ids, x):
    """The recorded form of an item in an ItemList."""
    if x.is_token:
        return ["T", x.pos, codes(x.text), ids.action(x.action), -99 if x.group is None else x.group]
    if x.name == "<untransformed>":
        return ["U", ids.key(x.obj.lexicon)[0], px.flat(ids, x.obj)]
    return ["I", int(x.name[1:]), x.obj]


def transforms(comp, M, body, named=None, missing=False):
    """A Transformer with a Transform per language class; the methods call
    body(lexicon number, items). named: a template, the Transformer has to
    find the classes itself; "" to get one Transform."""
    from parce.transform import Transform, Transformer, add_untransformed
    t = Transformer()
    if named:
        t.transform_name_template = named
    for part, cls in enumerate(comp.classes):
        ns = {}
        for i, m in enumerate(M, 1):
            if comp.part(i) == part and m:
                def meth(self, items, i=i):
                    return body(i, items)
                ns["L%d" % i] = add_untransformed(meth) if m == 2 else meth
        # a method with the name of a lexicon of the other language is not used
        for i, m in enumerate(M, 1):
            if comp.part(i) != part:
                ns["L%d" % i] = lambda self, items, i=i: body(-i, items)
        if missing and not any(m for i, m in enumerate(M, 1) if comp.part(i) == part):
            # there is no transform for this language
            if named:
                mod = types.ModuleType("verif.found%d" % part)
                sys.modules[mod.__name__] = mod
                cls.__module__ = mod.__name__
            elif named is None:
                t.add_transform(cls, None)
            continue
        T = type("T%d" % part, (Transform,), ns)
        if named == "":
            return T()
        if named:
            mod = types.ModuleType("verif.found%d" % part)
            sys.modules[mod.__name__] = mod
            cls.__module__ = mod.__name__
            setattr(mod, named.format(cls.__name__), T)
            other = "Trans{}" if named == "{}Transform" else "{}Transform"
            setattr(mod, other.format(cls.__name__), type("Other", (Transform,), {}))
        else:
            t.add_transform(cls, T())
    return t


def ask(rng, comp, ids, k, items):
    """A question about an ItemList, given to method call k."""
    acts = lang.actions()
    q = {"k": k, "op": rng.choice(["tokens", "items", "grouped", "grouped", "peek", "peek", "peek"])}
    if q["op"] in ("tokens", "items"):
        q["r"] = [next(i for i, x in enumerate(items, 1) if x is y) for y in getattr(items, q["op"])()]
    elif q["op"] == "grouped":
        n = len(comp.data["lex"])
        have = [int(x.name[1:]) for x in items if not x.is_token and x.name[0] == "L"]
        names = list(dict.fromkeys(rng.sample(have, min(len(have), rng.randint(0, 3)))
                                   + rng.sample(range(1, n + 1), rng.randint(0, 2))))
        rng.shuffle(names)
        q["names"] = names
        q["r"] = [[x or 0 for x in g] for g in items.grouped_objects(*("L%d" % i for i in names))]
    else:
        q["i"] = rng.randint(-len(items) - 1, len(items))
        real = items[q["i"]:] if q["i"] >= 0 or -q["i"] <= len(items) else list(items)
        vals = []
        for x in real[:rng.randint(0, 4)]:
            vals.append(["T", ids.action(x.action)] if x.is_token else ["U", 0] if x.name[0] == "<" else ["I", int(x.name[1:])])
        if vals and rng.random() < .3:
            vals[rng.randrange(len(vals))] = rng.choice([["T", rng.randrange(len(acts))], ["I", 1], ["I", 2], ["U", 0]])
        if rng.random() < .2:
            vals.append(["I", 1])
        q["vals"] = vals
        q["r"] = items.peek(q["i"], *(acts[v] if t == "T" else "<untransformed>" if t == "U" else "L%d" % v
                                      for t, v in vals))
    return q


def generated(job):
    seed, quick, count, ntexts, maxlen = job
    rng = random.Random(seed)
    import parce
    from parce import transform
    from parce.treebuilder import build_tree
    res = []
    for _ in range(count):
        data = lang.Gen(rng, bounded=False, nlex=rng.choice([2, 3, 4, 5])).language()
        comp = lang.Compiled(data, split=rng.random() < .5)
        ids = px.GenIds(comp)
        arg = rng.choice([None] * 4 + ["a"])
        root = comp.lexicon(1, arg)
        n = len(data["lex"])
        ev = []
        texts = []
        for _ in range(ntexts):
            M = [rng.choice([0, 1, 1, 1, 2]) for _ in range(n)]
            if rng.random() < .9:
                M[0] = rng.choice([1, 2])
            text = lang.rich_text(data, rng, rng.randint(0, maxlen))
            texts.append(text)
            missing = comp.split and rng.random() < .3
            if missing:
                part = rng.choice([comp.part(i) for i in range(1, n + 1)])
                if part != comp.part(1) or rng.random() < .1:
                    M = [0 if comp.part(i) == part else m for i, m in enumerate(M, 1)]
            pos = rng.randint(0, len(text)) if rng.random() < .15 else 0
            rec = {"text": codes(text), "pos": pos, "M": M, "tree": [], "txt": [], "rtree": 0, "rtext": 0, "evs": [], "asks": [], "exc": ""}
            way = rng.choice(["", "", "", "module", "{}Transform", "Trans{}"])
            if way == "module" and comp.split:
                way = ""
            try:
                with cpu_limit(5):
                    tree = parce.root(root, text) if not pos else build_tree(root, text, pos)
                    for name, fn in (("tree", lambda t: t.transform_tree(tree)),
                                     ("txt", lambda t: t.transform_text(root, text, *([pos] if pos else [])))):
                        if way == "module":
                            fn = (lambda t: transform.transform_tree(tree, t)) if name == "tree" \
                                else lambda t: transform.transform_text(root, text, t, pos)
                        calls = []
                        def body(i, items):
                            if rng.random() < .2:
                                rec["asks"].append(ask(rng, comp, ids, len(calls) + 1, items))
                            calls.append({"lx": i, "arg": lang.NONESTR if items.arg is None else codes(items.arg),
                                          "items": [item(ids, x) for x in items]})
                            return len(calls)
                        r = fn(transforms(comp, M, body, "" if way == "module" else way or None, missing))
                        rec[name] = calls
                        rec["rtree" if name == "tree" else "rtext"] = r or 0
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"root": comp.key(root), "ev": ev, "langdata": data, "case": {"texts": texts, "split": comp.split}})
        if failures(res):
            break
    return res


class NameIds(px.Ids):
    """Numbers lexicons by language and name; the argument apart."""
    def __init__(self):
        super().__init__()
        self.args = {}
        self.names = []

    def num(self, language, name):
        k = (language, name)
        if k not in self.lex:
            self.lex[k] = len(self.lex) + 1
            self.names.append(k)
        return self.lex[k]

    def arg(self, arg):
        return lang.NONESTR if arg is None else [self.args.setdefault(repr(arg), len(self.args) + 1)]

    def key(self, lexicon):
        if lexicon is None:
            return [0, lang.NONESTR]
        return [self.num(lexicon.language, lexicon.name), self.arg(lexicon.arg)]


def examples(job):
    """Bundled languages, with random transform methods."""
    seed, quick, count, maxlen = job
    rng = random.Random(seed)
    import parce
    from parce.lexer import Lexer
    from parce.lexicon import Lexicon
    from parce.transform import Transform, Transformer, add_untransformed
    res = []
    texts = bundled.texts()
    for _ in range(count):
        ext, name, text = rng.choice(texts)
        root = bundled.lexicon(name)
        text = bundled.snippet(rng, text, maxlen // 3, maxlen)
        ids = NameIds()
        salt = rng.random()
        dens = rng.choice([.5, .8, .95])
        def kind(language, lname):
            r = random.Random("%s %s %s" % (salt, language.__name__, lname))
            return r.choice([1, 2]) if lname == "root" or r.random() < dens else 0
        calls = []

        class T(Transformer):
            def find_transform(self, language):
                ns = {}
                for a in dir(language):
                    if isinstance(getattr(language, a), Lexicon):
                        k = kind(language, a)
                        if k:
                            def meth(self, items, a=a):
                                calls.append({"lx": ids.num(language, a), "arg": ids.arg(items.arg),
                                              "items": [item2(ids, calls, x) for x in items]})
                                return language, len(calls)
                            ns[a] = add_untransformed(meth) if k == 2 else meth
                return type(language.__name__ + "Transform", (Transform,), ns)()

        rec = {"text": [], "pos": 0, "M": [], "tree": [], "txt": [], "rtree": 0, "rtext": 0, "evs": [], "asks": [], "exc": ""}
        try:
            with cpu_limit(8):
                rec["evs"] = px.events(ids, Lexer([root]).events(text))
                for what, fn in (("tree", lambda t: t.transform_tree(parce.root(root, text))),
                                 ("txt", lambda t: t.transform_text(root, text))):
                    del calls[:]
                    r = fn(T())
                    rec[what] = list(calls)
                    rec["r" + ("tree" if what == "tree" else "text")] = r[1] if r else 0
        except Hang:
            rec["exc"] = "Hang"
        except Exception as e:
            rec["exc"] = where(e)
        key = ids.key(root)
        rec["M"] = [kind(*k) for k in ids.names]
        res.append({"lang": 0, "root": key, "ev": [rec], "case": {"language": name, "text": text, "salt": salt}})
        if failures(res):
            break
    return res


def item2(ids, calls, x):
    if not x.is_token and x.name != "<untransformed>":
        return ["I", ids.num(x.obj[0], x.name), x.obj[1]]
    return item(ids, x)


def structure(ids, i, items, nones=None):
    """What a transform method returns that just builds nested lists. nones:
    for lexicons the contents (one token) that are returned as None."""
    def plain(c):
        return ("U", ids.key(c.lexicon)[0],
                [plain(n) if n.is_context else ("T", codes(n.text), ids.action(n.action)) for n in c])
    out = []
    for x in items:
        if x.is_token:
            out.append(("T", codes(x.text), ids.action(x.action)))
        else:
            out.append(plain(x.obj) if x.name == "<untransformed>" else x.obj if x.obj is not None
                       else ("C", int(x.name[1:]), lang.NONESTR, nones[int(x.name[1:])]))
    if nones is not None and i > 1 and items.arg is None and len(out) == 1 and out[0][0] == "T":
        if nones.setdefault(i, out) == out:
            return None
    return ("C", i, lang.NONESTR if items.arg is None else codes(items.arg), out)


def flat_structure(r):
    out = []
    def walk(x, d):
        if x[0] == "T":
            out.append([d, "T", x[1], x[2]])
            return
        out.append([d, "U", x[1]] if x[0] == "U" else [d, "C", x[1], x[2]])
        for y in x[-1]:
            walk(y, d + 1)
    if r is not None:
        walk(r, 0)
    return out


def connected(job):
    """Transformers that are connected to tree builders."""
    from parce.treebuilder import TreeBuilder
    from .treedrive import random_changes
    seed, quick, count, nops, maxlen = job
    rng = random.Random(seed)
    res = []
    for _ in range(count):
        data = lang.Gen(rng, bounded=True, nlex=rng.choice([2, 3, 4])).language()
        comp = lang.Compiled(data, split=rng.random() < .3)
        ids = px.GenIds(comp)
        n = len(data["lex"])
        corp = lang.corpus(data, rng)
        piece = lambda: rng.choice(corp) if rng.random() < .6 else rng.choice(lang.ALPHA)
        Ms, tfs, log = [], [], []
        nones = {} if rng.random() < .4 else None   # then lexicon 1 remains the root
        for k in range(2):
            M = [rng.choice([0, 1, 1, 1, 2]) for _ in range(n)]
            M[0] = rng.choice([0, 1, 1, 1, 1, 2])
            Ms.append(M)
            t = transforms(comp, M, lambda i, items: structure(ids, i, items, nones))
            for e in ("started", "updated", "finished"):
                t.connect(e, lambda *a, k=k, e=e: log.append([k + 1, e, next((j for j, b in enumerate(builders, 1) if b.root is a[0]), 0),
                                                             flat_structure(a[1]) if len(a) > 1 else []]))
            tfs.append(t)
        builders = [TreeBuilder(comp.lexicon(1)) for _ in range(2)]
        text = [[""], [""]]
        used = set()
        ev, case = [], {"lang": data, "Ms": Ms, "ops": []}
        for _ in range(nops):
            b = rng.randrange(2)
            k = rng.randrange(2)
            rec = {"op": "edit", "b": b + 1, "k": k + 1, "root": [], "text": [], "log": [], "res": [], "sub": [], "exc": ""}
            x = rng.random()
            del log[:]
            try:
                with cpu_limit(5):
                    if x < .25:
                        if (b, k) in used:
                            rec["op"] = "disconnect"
                            tfs[k].disconnect_treebuilder(builders[b])
                            used.discard((b, k))
                            used.add((b, k, "never"))
                        elif (b, k, "never") not in used:
                            rec["op"] = "connect"
                            tfs[k].connect_treebuilder(builders[b])
                            used.add((b, k))
                        else:
                            continue
                    elif x < .35:
                        r = rng.choice([comp.lexicon(i) for i in range(1, n + 1 if nones is None else 2)] + [None, comp.lexicon(1, "a")])
                        rec["op"], rec["root"] = "root", [ids.key(r)]
                        builders[b].rebuild(text[b][0], r)
                    else:
                        s = text[b][0]
                        if not s:
                            s2 = lang.rich_text(data, rng, rng.randint(1, maxlen)) or "a"
                            args = (0, 0, len(s2))
                        else:
                            cs = random_changes(rng, s, piece, False)
                            if not cs:
                                continue
                            (a, e, w), = cs
                            s2 = s[:a] + w + s[e:]
                            args = (a, e - a, len(w))
                        text[b][0] = s2
                        rec["text"] = codes(s2)
                        builders[b].rebuild(s2, False, *args)
                    case["ops"].append([rec["op"], b, k, text[b][0]])
                    rec["log"] = list(log)
                    rec["res"] = [[flat_structure(t.result(bb.root)) for t in tfs] for bb in builders]
                    # intermediate results, by the number of the node in the list of all nodes
                    num = [0]
                    def walk(c, t):
                        for y in c:
                            num[0] += 1
                            if y.is_context:
                                me = num[0]
                                walk(y, t)
                                obj = t.result(y)
                                if obj is not None:
                                    rec["sub"].append([me, flat_structure(obj)])
                    if (b, k) in used and rec["op"] in ("edit", "root"):
                        walk(builders[b].root, tfs[k])
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"Ms": Ms, "ev": ev, "langdata": data, "case": case})
        if failures(res):
            break
    return res
