"""Creates and compares standard actions."""
import copy
import random

from .core import cpu_limit, Hang

NAMES = ["Text", "Name", "Tag", "Function", "name", "parent", "keys", "Ümlaut", "a", "N1", "Literal", "String", "x_y", "mro"]


def parent_of(action):
    """The parent is the second when iterating over an action."""
    up = list(action)
    return up[1] if len(up) > 1 else None


def histories(job):
    seed, quick, count, nops = job
    rng = random.Random(seed)
    from parce.standardaction import StandardAction
    import parce.action
    res = []
    for k in range(count):
        ev, objs, num, keep = [], {}, {}, []
        names = rng.sample(NAMES, 5)
        tops = [n if rng.random() < .6 else "V%d_%d_%s" % (seed, k, n) for n in names[:3]]
        pre = rng.random() < .3      # start with predefined actions
        def of(o):
            if o is None:
                return 0
            if id(o) not in num:
                num[id(o)] = len(num) + 1
                keep.append(o)
            return num[id(o)]
        def got(path, fn, op):
            rec = {"op": op, "a": list(path), "b": [], "n": "", "r": [0], "s": "", "exc": ""}
            try:
                o = fn()
                rec["r"] = [of(o)]
                objs[path] = o
            except Exception as ex:
                rec["exc"] = type(ex).__name__
            ev.append(rec)
        if pre:
            for name in ("Literal", "String", "Name"):
                o = getattr(parce.action, name)
                path = tuple(str(o).split("."))
                for i in range(1, len(path)):
                    got(path[:i], lambda: parent_of(o) if i == len(path) - 1 else StandardAction(path[0]), "make")
                got(path, lambda: o, "make")
        while len(ev) < nops:
            r = rng.random()
            if r < .4 or not objs:
                if rng.random() < .25 or not objs:
                    path = (rng.choice(tops),)
                    got(path, lambda: StandardAction(path[0]), "make")
                else:
                    p = rng.choice(list(objs))
                    if len(p) >= 4:
                        continue
                    n = rng.choice(names)
                    if rng.random() < .7:
                        got(p + (n,), lambda: getattr(objs[p], n), "get")
                    else:
                        got(p + (n,), lambda: StandardAction(n, objs[p]), "make")
                continue
            a, b = rng.choice(list(objs)), rng.choice(list(objs))
            if rng.random() < .5:       # related
                rel = [p for p in objs if p[:len(a)] == a or a[:len(p)] == p]
                b = rng.choice(rel)
            x, y = objs[a], objs[b]
            op = rng.choice(["copy", "deepcopy", "parent", "iter", "in", "in", "name_in", "and", "and", "eq", "repr", "private"])
            if op == "iter" and any(a[:i] not in objs for i in range(1, len(a))):
                continue
            rec = {"op": op, "a": list(a), "b": list(b), "n": "", "r": [0], "s": "", "exc": ""}
            try:
                with cpu_limit(5):
                    if op == "copy":
                        rec["r"] = [of(copy.copy(x))]
                    elif op == "deepcopy":
                        rec["r"] = [of(copy.deepcopy([{"k": x}])[0]["k"])]
                    elif op == "parent":
                        rec["r"] = [of(parent_of(x))]
                    elif op == "iter":
                        rec["r"] = [of(o) for o in x]
                    elif op == "in":
                        rec["r"] = [int(x in y)]
                    elif op == "name_in":
                        rec["n"] = n = rng.choice(names + tops)
                        rec["r"] = [int(n in x)]
                    elif op == "and":
                        rec["r"] = [of(x & y)]
                    elif op == "eq":
                        rec["r"] = [int(x == y), int(x != y)]
                    elif op == "repr":
                        rec["s"] = rng.choice([repr, str])(x)
                    else:
                        getattr(x, rng.choice(["_foo", "__wrapped__", "_", "_child"]))
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = type(ex).__name__
            ev.append(rec)
        res.append({"ev": ev, "case": {"names": names, "tops": tops}})
    return res
