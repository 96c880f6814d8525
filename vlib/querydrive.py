"""Queries real trees."""
import random
import re

from . import lang, px
from .core import codes, cpu_limit, Hang, where
from .lang import NONE
from .navdrive import Numbered

NAV = ["all", "alltokens", "allcontexts", "children", "parent", "ancestors", "first", "last", "next", "previous", "forward",
       "backward"]
SIB = ["right", "left", "right_siblings", "left_siblings"]
SEL = ["tokens", "contexts", "uniq", "remove_descendants", "remove_ancestors"]
INV = ["len", "in_range", "call", "startingwith", "endingwith", "containing", "matching", "matching^", "action", "in_action"]
OTHER = ["item", "items", "slice", "map", "filter"]


def step(rng, q, cur, num, comp, size):
    """Add a random step; returns (record, query)."""
    r = rng.random()
    has_root = any(n.parent is None for n in cur)
    if r < .35:
        op = rng.choice(NAV)
    elif r < .45 and not has_root:
        op = rng.choice(SIB)
    elif r < .6:
        op = rng.choice(SEL)
    elif r < .85:
        op = rng.choice(INV)
    else:
        op = rng.choice(OTHER)
    if op in ("all", "forward", "backward", "ancestors", "left_siblings", "right_siblings") and len(cur) > 40:
        op = "uniq"
    rec = {"op": op, "a": NONE, "b": NONE, "c": NONE, "ts": [], "ls": [], "inv": False}
    if op in NAV or op in SIB or op in SEL:
        return rec, getattr(q, op)
    if op in INV:
        k = rng.choice([0, 0, 0, 1, 1, 2])
        for _ in range(k):
            q = q.is_not
        rec["inv"] = k % 2 == 1
    toks = [n for n in num.nodes if n.is_token]
    tok = lambda: rng.choice(toks).text if toks else "a"
    def part():
        s = tok()
        i = rng.randrange(len(s))
        return s[i:i + rng.randint(1, 2)]
    ints = lambda: rng.choice([None, rng.randint(-3, 4), rng.randint(-3, 4)])
    def put(*xs):
        for k, x in zip("abc", xs):
            rec[k] = NONE if x is None else x
    if op == "item":
        put(rng.randint(-3, 3))
        return rec, q[rec["a"]]
    if op == "items":
        a, b, c = ints(), ints(), rng.choice([None, None, 1, 2, -1, -2])
        put(a, b, c)
        return rec, q[slice(a, b, c)]
    if op == "slice":
        b = rng.randint(0, 5)
        if rng.random() < .5:
            put(None, b)
            return rec, q.slice(b)
        a, c = rng.randint(0, 3), rng.choice([None, 1, 2])
        b = rng.choice([None, b])
        put(a, b, c)
        return rec, (q.slice(a, b) if c is None else q.slice(a, b, c))
    if op == "map":
        return rec, q.map(lambda n: [n, n.parent] if n.parent is not None else [n])
    if op == "filter":
        return rec, q.filter(lambda n: n.pos % 2 == 0)
    if op == "len":
        a, b = rng.randint(0, 3), rng.choice([None, rng.randint(1, 5)])
        put(a, b)
        return rec, (q.len(a) if b is None else q.len(a, b))
    if op == "in_range":
        a, b = rng.randint(0, size), rng.choice([None, rng.randint(0, size + 2)])
        put(a, b)
        return rec, (q.in_range(a) if b is None else q.in_range(a, b))
    if op == "call":
        ts = [tok() for _ in range(rng.choice([0, 1, 1, 2]))]
        ls = [rng.randint(1, len(comp.data["lex"])) for _ in range(rng.choice([0, 1, 1, 2]))]
        if not ts and not ls:
            ts = ["a"]
        rec["ts"], rec["ls"] = [codes(x) for x in ts], ls
        return rec, q(*ts, *[comp.lexicon(i) for i in ls])
    if op in ("action", "in_action"):
        ls = [rng.randrange(lang.NACT) for _ in range(rng.choice([1, 1, 2]))]
        rec["ls"] = ls
        return rec, getattr(q, op)(*[lang.actions()[i] for i in ls])
    s = part()
    rec["ts"] = [codes(s)]
    if op == "matching":
        return rec, q.matching(re.escape(s))
    if op == "matching^":
        return rec, q.matching("^" + re.escape(s))
    return rec, getattr(q, op)(s)


def queries(job):
    seed, quick, count, nq, maxlen = job
    rng = random.Random(seed)
    import parce
    from parce.query import Query
    res = []
    for _ in range(count):
        data = lang.Gen(rng, bounded=False, nlex=rng.choice([2, 3, 4, 5])).language()
        comp = lang.Compiled(data)
        comp.data = data
        ids = px.GenIds(comp)
        text = lang.rich_text(data, rng, rng.randint(1, maxlen))
        try:
            with cpu_limit(6):
                root = parce.root(comp.lexicon(1), text)
                fl = px.flat(ids, root)
        except Hang:
            continue    # judged by C05
        ev = []
        for _ in range(nq):
            num = Numbered(root)
            if rng.random() < .7:
                start = [rng.randrange(len(num.nodes)) if rng.random() < .5 else 0]
                mk = lambda num: num.nodes[start[0]].query
            else:
                start = [rng.randrange(len(num.nodes)) for _ in range(rng.randint(0, 4))]
                mk = lambda num: Query.from_nodes([num.nodes[i] for i in start])
            rec = {"start": start, "steps": [], "r": [], "again": [], "count": 0, "any": False, "pick": -1, "last": -1,
                   "dflt": -1, "pickd": -1, "lastd": -1,
                   "range": [], "del": False, "left": [], "dcount": 0, "par": [], "intact": [], "exc": ""}
            try:
                with cpu_limit(5):
                    def consume(q, num):
                        k = rng.random()
                        if k < .5:
                            list(q)         # consuming an intermediate query
                        elif k < .6:
                            bool(q), q.count()
                    q = mk(num)
                    s = rng.getstate()
                    for _ in range(rng.randint(1, 5)):
                        cur = list(q)
                        if len(cur) > 150:
                            break
                        st, q = step(rng, q, cur, num, comp, len(text))
                        rec["steps"].append(st)
                    rec["r"] = num.many(q)
                    rec["count"] = q.count()
                    rec["any"] = bool(q)
                    rec["pick"] = num.of(q.pick())
                    rec["last"] = num.of(q.pick_last())
                    dflt = rng.choice(num.nodes)
                    rec["dflt"] = num.of(dflt)
                    rec["pickd"] = num.of(q.pick(dflt))
                    rec["lastd"] = num.of(q.pick_last(dflt))
                    rec["range"] = list(q.range())
                    rec["again"] = num.many(q)
                    rec["intact"] = px.flat(ids, root)
                    if len(rec["r"]) < 60 and rng.random() < .5:
                        # the same selection in a copy, then deleted
                        copy = Numbered(root.copy())
                        sel = Query.from_nodes([copy.nodes[i] for i in rec["r"]])
                        rec["dcount"] = sel.delete()
                        rec["left"] = px.flat(ids, copy.nodes[0])
                        rec["par"] = px.parents(copy.nodes[0])
                        rec["del"] = True
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"fl": fl, "root": 1, "ev": ev, "case": {"text": text, "lang": data}})
        if sum(1 for r in res if r["ev"] and r["ev"][-1]["exc"]) >= 3:
            break
    return res
