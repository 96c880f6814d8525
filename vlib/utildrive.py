"""Dispatchers in class hierarchies, switches, and helpers on streams."""
import collections
import gc
import random

from .core import cpu_limit, Hang, where
from .lexdrive import failures

NAMES = ["m1", "m2", "m3", "m4"]
KEYS = [1, 2, 3, 4]


def make_classes(rng, log):
    """Classes with dispatchers and overridden methods; class 1 is the base."""
    from parce.util import Dispatcher
    classes, specs = [], []
    for i in range(1, rng.randint(2, 6)):
        bases = () if i == 1 or rng.random() < .1 else tuple(rng.sample(classes, min(len(classes), rng.choice([1, 1, 2]))))
        has = not bases or rng.random() < .5
        dflt = has and rng.random() < .4
        ns, table = {}, []
        def fn(name, i=i):
            def f(self, *args, **kw):
                log.append([[i, name], list(args) + [v for k, v in sorted(kw.items())], self])
                return "result"
            f.__name__ = name
            return f
        if has:
            ns["dispatch"] = Dispatcher(fn("default")) if dflt else Dispatcher()
        # a method that a dispatcher refers to is defined in the same class
        for name in rng.sample(NAMES, rng.randint(0, 4)):
            f = fn(name)
            if has and rng.random() < .8:
                keys = rng.sample(KEYS, rng.choice([1, 1, 2]))
                f = ns["dispatch"](*keys)(f)
                table += [[k, name] for k in keys]
            ns[name] = f
        try:
            cls = type("C%d" % i, bases, ns)
        except TypeError:       # no consistent order of the bases
            bases = bases[:1]
            cls = type("C%d" % i, bases, ns)
        classes.append(cls)
        specs.append({"mro": [classes.index(c) + 1 for c in cls.__mro__[:-1]], "has": has, "dflt": dflt,
                      "table": table, "meths": [n for n in ns if n in NAMES]})
    return classes, specs


def stream(rng):
    pos, out = rng.randint(0, 3), []
    for _ in range(rng.randint(0, 7)):
        pos += rng.choice([0, 0, 0, 1, 2])
        end = pos + rng.randint(1, 3)
        out.append((pos, end, rng.randint(1, 2)))
        pos = end
    return out


def nested(rng, d=0):
    x = rng.random()
    if d > 3 or x < .6:
        return rng.randint(1, 5)
    t = [nested(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return t if x < .8 else tuple(t)


def leaves(x, d=0):
    if isinstance(x, (tuple, list)):
        return [y for z in x for y in leaves(z, d + 1)]
    return [[d, x]]


Piece = collections.namedtuple("Piece", "pos end what")


def histories(job):
    import parce
    from parce import util, action as pa
    from parce.tree import Context, Token
    class L1(parce.Language):
        @parce.lexicon
        def root(cls):
            yield "x", pa.Text
        @parce.lexicon
        def other(cls):
            yield "x", pa.Text
    class L2(L1):
        pass
    LEX, LANG, ACT = [L1.root, L1.other, L2.root], [L1, L2], [pa.Text, pa.Name]
    seed, quick, count, nops = job
    rng = random.Random(seed)
    res = []
    for _ in range(count):
        log = []
        classes, specs = make_classes(rng, log)
        objs = [c() for c in classes]

        class A:
            one = util.Switch()
            two = util.Switch()
        class B(A):
            two = util.Switch()
        plain = util.Switch()
        inst = [A(), A(), B()]
        switches = [lambda: plain] + [lambda x=x, n=n: getattr(x, n) for x in inst for n in ("one", "two")]
        depth = [0] * len(switches)
        ev = []
        for _ in range(nops):
            rec = {"op": "", "o": 0, "key": 0, "args": [], "r": [], "a": 0, "b": 0, "s": [], "exc": ""}
            op = rec["op"] = rng.choice(["call", "call", "call", "get", "default", "enter", "exit", "on", "clip", "merge", "split", "unroll", "tokens", "actions", "langs"])
            del log[:]
            try:
                with cpu_limit(4):
                    if op in ("call", "get", "default"):
                        o = rng.randrange(len(objs))
                        rec["o"] = o + 1
                        obj = objs[o]
                        rec["key"] = rng.choice(KEYS + [9])
                        args = rec["args"] = [rng.randint(10, 20) for _ in range(rng.randint(0, 3))]
                        if op == "call" and rng.random() < .3:
                            r = obj.dispatch(rec["key"], *args[:-1], **({"kw": args[-1]} if args else {}))
                        elif op == "call":
                            r = obj.dispatch(rec["key"], *args)
                        else:
                            f = obj.dispatch.get(rec["key"]) if op == "get" else obj.dispatch.default
                            r = f(*args) if f else None
                        if (r == "result") != bool(log) or len(log) > 1:
                            raise AssertionError("result %r of %d calls" % (r, len(log)))
                        if log:
                            if log[0][2] is not obj:
                                raise AssertionError("wrong instance")
                            rec["r"] = log[0][:2]
                    elif op in ("enter", "exit"):
                        k = rng.randrange(len(switches))
                        if op == "exit" and not depth[k]:
                            rec["op"] = op = "enter"
                        rec["a"] = k + 1
                        depth[k] += 1 if op == "enter" else -1
                        if op == "enter":
                            switches[k]().__enter__()
                        elif rng.random() < .3:
                            if switches[k]().__exit__(ValueError, ValueError("x"), None):
                                raise AssertionError("exception is hidden")
                        else:
                            switches[k]().__exit__(None, None, None)
                        if rng.random() < .2:
                            gc.collect(0)
                    elif op == "on":
                        rec["r"] = [int(bool(s())) for s in switches]
                    elif op == "clip":
                        s = stream(rng)
                        rec["s"] = s
                        rec["a"] = rng.choice([0, 0, s[0][0] + rng.randint(0, s[0][1] - s[0][0]) if s else 3])
                        lo = max(rec["a"], s[-1][0]) if s else 0
                        rec["b"] = rng.choice([-1, -1, rng.randint(lo, s[-1][1] + 2) if s else 5])
                        rec["r"] = [list(x) for x in util.fix_boundaries(iter(s), rec["a"], None if rec["b"] == -1 else rec["b"])]
                    elif op == "merge":
                        rec["s"] = stream(rng)
                        f = rng.choice([None, Piece])
                        r = list(util.merge_adjacent(iter(rec["s"]), Piece) if f else util.merge_adjacent(rec["s"]))
                        if not all(isinstance(x, f or tuple) for x in r):
                            raise AssertionError("wrong type")
                        rec["r"] = [list(x) for x in r]
                    elif op == "split":
                        rec["s"] = [rng.randint(1, 3) for _ in range(rng.randint(0, 7))]
                        rec["a"] = rng.randint(1, 3)
                        rec["r"] = [list(x) for x in util.split_list(rec["s"], rec["a"])]
                    elif op == "unroll":
                        x = nested(rng)
                        rec["s"] = leaves(x)
                        rec["r"] = list(util.unroll(x))
                    else:
                        # real tokens: [pos, end, action and language]
                        st = stream(rng)
                        nl = rng.choice([1, 2])
                        ctxs = [Context(l, None) for l in LEX[:nl + 1]]
                        toks = []
                        for pos, end, w in st:
                            c = rng.choice(ctxs)
                            toks.append(Token(c, pos, "x" * (end - pos), ACT[w - 1]))
                            c.append(toks[-1])
                        num = lambda k: next(i for i, x in enumerate(toks, 1) if x is k)
                        what = lambda a, l: 1 + ACT.index(a) + (2 * LANG.index(l) if op == "langs" else 0)
                        if op == "tokens":
                            # contexts and tokens mixed, in both directions
                            nodes = [rng.choice(ctxs + toks) for _ in range(rng.randint(0, 4))] if toks else []
                            rev = rng.random() < .5
                            rec["a"] = int(rev)
                            rec["s"] = [[num(k) for k in (n if n.is_context else [n])] for n in nodes]
                            rec["r"] = [num(k) for k in util.tokens(nodes, rev)]
                        else:
                            rec["s"] = [[k.pos, k.end, what(k.action, k.parent.lexicon.language)] for k in toks]
                            rec["r"] = [[x[0], x[1], what(x[2], x[3] if op == "langs" else None)] for x in
                                        (util.merge_adjacent_actions_with_language if op == "langs" else util.merge_adjacent_actions)(iter(toks))]
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"classes": specs, "nsw": len(switches), "ev": ev, "case": {"classes": specs}})
        if failures(res):
            break
    return res
