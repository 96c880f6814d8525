"""Threads that ask for unique and cached objects at the same time."""
import gc
import os
import random
import tempfile
import weakref

from .core import cpu_limit, Hang, where
from . import sched


class Log:
    def __init__(self):
        self.ev, self.ids, self.keep = [], {}, []

    def add(self, k, th, key, val=None, keep=True, ok=True, exc=""):
        n = -1
        if val is not None:
            self.keep.append(val)
            n = self.ids.setdefault(id(val), len(self.ids) + 1)
        self.ev.append({"k": k, "th": th, "key": str(key), "val": n, "keep": keep, "ok": bool(ok), "exc": exc})


def scenario(rng, kind, n):
    """Return functions (make) -> programs(log); make() prepares fresh objects."""
    import parce
    from parce import util
    from parce.standardaction import StandardAction
    from parce.language import Language
    from parce import lexicon
    from parce.rule import arg as rule_arg
    import parce.action as a
    nth = rng.choice([2, 2, 3])
    tag = "Z%dx" % n

    if kind == "action":
        progs = [[[rng.choice(["Pa", "Pa", "Pa", "Pb"])] + [rng.choice(["Qa", "Qa", "Qb"]) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 2))]
                 for _ in range(nth)]
        first = rng.random() < .7
        def make(log, run):
            tops = {}
            if first:
                for x in ("Pa", "Pb"):
                    tops[x] = StandardAction(tag + str(run) + x)
                    log.add("ret", 0, tag + str(run) + x, tops[x])
            def prog(i):
                def f():
                    for path in progs[i]:
                        x, names = tops.get(path[0]) or StandardAction(tag + str(run) + path[0]), [tag + str(run) + path[0]]
                        parent = None
                        for name in path[1:] + [None]:
                            up = list(x)
                            ok = up[0] is x and (up[1] if len(up) > 1 else None) is parent and len(up) == len(names) and repr(x) == ".".join(names)
                            log.add("ret", i, ".".join(names), x, ok=ok)
                            if name:
                                parent, x = x, getattr(x, name)
                                names.append(name)
                return f
            return [prog(i) for i in range(nth)]
    elif kind == "symbol":
        progs = [[rng.choice(["s", "t"]) for _ in range(2)] for _ in range(nth)]
        def make(log, run):
            def prog(i):
                def f():
                    for name in progs[i]:
                        x = util.Symbol(tag + str(run) + name)
                        log.add("ret", i, name, x, ok=repr(x) == tag + str(run) + name)
                return f
            return [prog(i) for i in range(nth)]
    elif kind == "lexicon":
        progs = [[rng.choice([("root",), ("other",), ("root", "a"), ("root", "b"), ("root", "a", "b"), ("root", "b", "a"), ("other", "a"), ("parse",), ("parse", "a"), ("parse", "b", "a"), ("sub",), ("sub", "a")])
                  for _ in range(rng.choice([2, 2, 4]))] for _ in range(nth)]
        def make(log, run):
            class L(Language):
                @lexicon
                def root(cls):
                    yield "x", a.Name
                    yield rule_arg(), a.Number
                    yield "y", a.Text, cls.other
                @lexicon
                def other(cls):
                    yield "z", a.Comment, -1
            class M(L):
                pass
            def prog(i):
                def f():
                    for p in progs[i]:
                        lang = M if p[0] == "sub" else L
                        name = p[0] if p[0] in ("root", "other") else "root"
                        x = getattr(lang, name)
                        log.add("ret", i, lang.__name__ + "." + name, x, ok=x.arg is None and x.name == name and x.language is lang)
                        first = x
                        for arg in p[1:]:
                            x = x(arg)
                            log.add("ret", i, "%s.%s(%s)" % (lang.__name__, name, arg), x,
                                    ok=x.arg == arg and x.name == name and x == first and x is not first and not x != first and x.language is lang)
                        # a lexicon of a language that inherits is another lexicon
                        twin = getattr(L if lang is M else M, name)
                        for y in (first, x, twin, twin("a")):
                            for z in (first, x, twin, twin("a")):
                                same = y.language is z.language
                                log.add("eq", i, "equal", ok=(y == z) is same and (y != z) is not same)
                        log.add("eq", i, "equal", ok=getattr(lang, "other" if name == "root" else "root") != x and x != "x" and x() is x)
                        if p[0] == "parse":
                            ts = [(t[0], t[1], str(t[3])) for t in x.parse("xay", 0)]
                            want = [(0, "x", "Name")] + ([(1, "a", "Literal.Number")] if len(p) > 1 else []) + [(2, "y", "Text")]
                            log.add("eq", i, "parse", ok=ts == want)
                            rules = x.rules
                            log.add("ret", i, "rules%s" % (p[-1],), rules, ok=len(rules) == 3)
                            log.add("eq", i, "iter", ok=len(list(x)) == 3)
                return f
            return [prog(i) for i in range(nth)]
    elif kind in ("method", "property", "func", "dict", "dictnone"):
        fails = rng.random() < .3
        none = kind == "dictnone"
        many = rng.choice([1, 3])       # arguments of the method
        class Val(list):
            truth = rng.random() < .6
            def __bool__(self):
                return self.truth
        progs = [[(rng.randrange(2), rng.choice(["p", "q"])) for _ in range(2)] for _ in range(nth)]
        def make(log, run):
            bad = set()
            who = {}
            def compute(key):
                import _thread
                th = sched.current.index[_thread.get_ident()]
                log.add("begin", th, key)
                for _ in range(2):
                    sched.current.step()
                if fails and key not in bad:
                    bad.add(key)
                    log.add("end", th, key, keep=False, exc="x")
                    raise ValueError("on purpose")
                if none and key not in bad:
                    bad.add(key)
                    log.add("end", th, key, keep=False)
                    return None
                v = Val([key])
                log.keep.append(v)
                log.add("end", th, key, v)
                return v
            class O:
                @util.cached_method
                def meth(self, x, y=None, z=None):
                    return compute("%d%s" % (self.n, x if y is None else y))
                @util.cached_property
                def prop(self):
                    return compute("%d" % self.n)
            fn = util.cached_func(lambda n, x: compute("%d%s" % (n, x)))
            dic = util.caching_dict(lambda k: compute(k), False, not none)
            dic2 = util.caching_dict(lambda n, x: compute("%d%s" % (n, x)), True, not none)
            unpack = rng.random() < .5
            os_ = [O(), O()]
            for n_, o in enumerate(os_):
                o.n = n_
            log.keep += os_
            def prog(i):
                def f():
                    for n_, x in progs[i]:
                        key = "%d" % n_ if kind == "property" else "%d%s" % (n_, x)
                        try:
                            if kind == "method":
                                v = os_[n_].meth(x) if many == 1 else os_[n_].meth(None, x, None)
                            elif kind == "property":
                                v = os_[n_].prop
                            elif kind == "func":
                                v = fn(n_, x)
                            else:
                                v = dic2[(n_, x)] if unpack else dic[key]
                        except ValueError:
                            log.add("raised", i, key)
                        else:
                            if v is None:
                                log.add("eq", i, key, ok=none)
                            else:
                                log.add("ret", i, key, v, ok=v == [key])
                return f
            return [prog(i) for i in range(nth)]
    elif kind == "locker":
        progs = [[(rng.choice("ab"), rng.random() < .2) for _ in range(2)] for _ in range(nth)]
        def make(log, run):
            lock = util.object_locker()
            class O:
                pass
            objs = {"a": O(), "b": O()}
            log.refs = [(k, weakref.ref(o), objs) for k, o in objs.items()]
            def prog(i):
                def f():
                    for key, fail in progs[i]:
                        try:
                            with lock(objs[key]):
                                log.add("enter", i, key)
                                for _ in range(2):
                                    sched.current.step()
                                log.add("leave", i, key)
                                if fail:
                                    raise ValueError
                        except ValueError:
                            log.add("eq", i, key, ok=fail)
                return f
            return [prog(i) for i in range(nth)]
    return make, progs


KINDS = ["action", "action", "symbol", "lexicon", "lexicon", "method", "property", "func", "dict", "dictnone", "locker"]


def threads(job):
    seed, quick, count, per = job
    rng = random.Random(seed)
    sched.install()
    res, failed = [], 0
    run = 0
    for n in range(count):
        kind = rng.choice(KINDS)
        make, progs = scenario(rng, kind, seed * 1000 + n)
        plans = [{}]
        steps = None
        k = 0
        while k < len(plans):
            log = Log()
            log.refs = []
            run += 1
            s = sched.Sched(make(log, run), plans[k])
            errs = ["Hang"]
            try:
                with cpu_limit(8):
                    errs = s.run()
            except Hang:
                pass
            if errs is None:
                return res
            for i, e in enumerate(errs):
                if e:
                    log.add("error", i, "", exc=e)
                    failed += 1
            log.add("done", 0, "")
            if kind == "locker" and not any(errs):
                s = None
                refs, log.refs = log.refs, []
                for key, r, objs in refs:
                    objs.clear()
                gc.collect()
                for key, r, objs in refs:
                    log.add("gone", 0, key, ok=r() is None)
            if steps is None:
                steps = s.steps if s else 40
                nth = len(progs)
                pts = [(p, t) for p in range(1, steps + 1) for t in range(nth)]
                rng.shuffle(pts)
                # one switch everywhere, then random combinations
                plans += [{p: t} for p, t in pts[:2 * per]]
                plans += [{p: rng.randrange(nth) for p in rng.sample(range(1, 2 * steps), min(c, steps))}
                          for c in [2, 2, 3, 3, 4, 6, 10] * (per // 7)]
            res.append({"ev": log.ev, "case": {"kind": kind, "programs": progs, "switches": {str(a): b for a, b in plans[k].items()}}})
            k += 1
            if failed > 3:
                return res
    return res


def histories(job):
    """Single threaded: files that change, objects that go away."""
    seed, quick, count = job
    rng = random.Random(seed)
    from parce import util
    res = []
    for _ in range(count):
        log = Log()
        with tempfile.TemporaryDirectory(prefix="verif_") as d:
            files = [os.path.join(d, "f%d" % i) for i in range(2)]
            mtime = {}
            calls = []
            def load(fn):
                calls.append(fn)
                v = [fn, len(calls)]
                log.keep.append(v)
                return v
            cache = util.file_cache(load)
            last = {}
            for _ in range(rng.randint(3, 15)):
                i = rng.randrange(2)
                op = rng.choice(["write", "get", "get", "get", "remove"])
                if op == "write":
                    with open(files[i], "w") as f:
                        f.write("x")
                    mtime[i] = rng.choice([100, 200, 300])
                    os.utime(files[i], (mtime[i], mtime[i]))
                elif op == "remove":
                    if mtime.pop(i, None) is not None:
                        os.unlink(files[i])
                else:
                    n = len(calls)
                    try:
                        v = cache[files[i]]
                    except Exception as e:
                        log.add("error", 0, "file", exc=where(e))
                        break
                    called = len(calls) > n
                    m = mtime.get(i)
                    # the key of a loading is the file, the time and the last loading of the file before it
                    if m is None:
                        log.add("eq", 0, "missing", ok=called and v[1] == len(calls))
                    elif last.get(i, (None,))[0] == m:
                        log.add("eq", 0, "unchanged", ok=not called and v is last[i][1])
                    else:
                        log.add("eq", 0, "changed", ok=called and v[1] == len(calls))
                        last[i] = (m, v)
        class O:
            @util.cached_method
            def meth(self, x):
                return [x]
            @util.cached_property
            def prop(self):
                return object()
        o = O()
        same = o.meth(1) is o.meth(1) and o.prop is o.prop and o.meth(1) is not o.meth(2)
        other = O()
        log.add("eq", 0, "own", ok=same and other.prop is not o.prop)
        r = weakref.ref(o)
        del o
        gc.collect()
        log.add("gone", 0, "instance", ok=r() is None)
        log.add("done", 0, "")
        res.append({"ev": log.ev, "case": {"kind": "history"}})
    return res
