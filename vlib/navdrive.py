"""Asks real trees all kinds of questions."""
import random

from . import lang, px
from .core import codes, cpu_limit, Hang, where

NOEND = -1000


class Numbered:
    def __init__(self, root):
        self.nodes = [root]
        self.num = {id(root): 0}
        def walk(c):
            for n in c:
                self.num[id(n)] = len(self.nodes)
                self.nodes.append(n)
                if n.is_context:
                    walk(n)
        walk(root)

    def of(self, n):
        return -1 if n is None else self.num.get(id(n), -7)

    def many(self, ns):
        return [self.of(n) for n in ns]


def deleted(root, n):
    """Delete node n in a copy of the tree; its answer and the nodes that are left."""
    copy = root.copy()
    num = Numbered(copy)
    keep = num.nodes        # so the numbers remain
    r = keep[n].delete()
    left = []
    def walk(c):
        for x in c:
            left.append(num.of(x))
            if x.is_context:
                walk(x)
    walk(copy)
    return [num.of(r), *left]


def question(rng, num, size):
    """Return [op, n, a, b] and a function giving the answer."""
    nodes = num.nodes
    n = rng.randrange(len(nodes))
    node = nodes[n]
    of, many = num.of, num.many
    tokens = [i for i, x in enumerate(nodes) if x.is_token]
    pos = rng.randint(-2, size + 3)
    def anc(x, incl=False):
        s = [i for i in many(x.ancestors())]
        return rng.choice(s) if s and rng.random() < .6 else -1
    def up(u):
        return None if u == -1 else nodes[u]
    r = rng.random()
    if r < .45 and n:
        op = rng.choice(["left_sibling", "right_sibling", "left_siblings", "right_siblings", "is_first", "is_last",
                         "parent_index", "depth", "root", "ancestors", "is_ancestor_of", "common_ancestor", "next_token",
                         "previous_token", "forward", "backward", "span", "delete", "delete", "same"])
        if op in ("left_sibling", "right_sibling", "root", "next_token", "previous_token"):
            return (op, n, 0, 0), lambda: [of(getattr(node, op)())]
        if op in ("left_siblings", "right_siblings"):
            return (op, n, 0, 0), lambda: many(getattr(node, op)())
        if op in ("is_first", "is_last", "parent_index", "depth"):
            return (op, n, 0, 0), lambda: [int(getattr(node, op)())]
        if op == "span":
            return (op, n, 0, 0), lambda: [node.pos, node.end]
        if op == "ancestors":
            u = anc(node)
            return (op, n, u, 0), lambda: many(node.ancestors(up(u)))
        if op in ("forward", "backward"):
            u = anc(node)
            return (op, n, u, 0), lambda: many(getattr(node, op)(up(u)))
        if op == "delete":
            if rng.random() < .6:
                # a node that has no siblings
                only = [i for i, x in enumerate(nodes) if i and len(x.parent) == 1]
                n = rng.choice(only) if only else n
            return (op, n, 0, 0), lambda: deleted(nodes[0], n)
        m = rng.choice([n, rng.randrange(len(nodes))]) if op == "same" else rng.randrange(len(nodes))
        if op == "same":
            def f():
                other = nodes[m]
                yes = node == other
                assert (node != other) is (not yes) and (not yes or hash(node) == hash(other))
                return [yes]
            return (op, n, m, 0), f
        if op == "is_ancestor_of":
            return (op, n, m, 0), lambda: [int(node.is_ancestor_of(nodes[m]))]
        return (op, n, m, 0), lambda: [of(node.common_ancestor(nodes[m]))]
    if r < .65 and tokens:
        n, m = rng.choice(tokens), rng.choice(tokens)
        node, other = nodes[n], nodes[m]
        op = rng.choice(["forward_including", "backward_including", "forward_until", "trails", "group", "group_ends", "state_matches",
                         "equals", "text_is"])
        if op in ("forward_including", "backward_including"):
            u = anc(node)
            return (op, n, u, 0), lambda: many(getattr(node, op)(up(u)))
        if op == "forward_until":
            return (op, n, m, 0), lambda: many(node.forward_until_including(other))
        if op == "trails":
            def f():
                c, a, b = node.common_ancestor_with_trail(other)
                return [-1] if c is None else [of(c), -2, *a, -2, *b]
            return (op, n, m, 0), f
        if op == "equals":
            return (op, n, m, 0), lambda: [int(node.equals(other))]
        if op == "text_is":
            def f():
                yes = node == other.text
                assert (node != other.text) is (not yes) and "%s" % format(node) == node.text and len(node) == len(node.text)
                return [yes]
            return (op, n, m, 0), f
        if op == "state_matches":
            return (op, n, m, 0), lambda: [int(node.state_matches(other))]
        groups = [i for i in tokens if nodes[i].group is not None]
        if groups:
            n = rng.choice(groups)
            node = nodes[n]
            if op == "group":
                return (op, n, 0, 0), lambda: many(node.get_group())
            return ("group_ends", n, 0, 0), lambda: [of(node.get_group_start()), of(node.get_group_end())]
    ctxs = [i for i, x in enumerate(nodes) if x.is_context]
    n = rng.choice(ctxs) if rng.random() < .6 else 0
    node = nodes[n]
    op = rng.choice(["tokens", "rtokens", "first_token", "last_token", "height", "find", "find_left", "find_context",
                     "find_token", "find_token_left", "find_token_trail", "find_token_left_trail", "find_token_after",
                     "find_token_before", "range", "range", "range", "range_span", "span", "lexicon_is"])
    if op == "lexicon_is":
        if len(ctxs) == 1:
            return ("span", n, 0, 0), lambda: [node.pos, node.end]
        n, m = rng.choice(ctxs[1:]), rng.choice(ctxs[1:])
        def f():
            node = nodes[n]
            yes = node == nodes[m].lexicon
            assert (node != nodes[m].lexicon) is (not yes)
            return [yes]
        return (op, n, m, 0), f
    if op == "tokens":
        return (op, n, 0, 0), lambda: many(node.tokens())
    if op == "rtokens":
        return (op, n, 0, 0), lambda: many(node.tokens(True))
    if op in ("first_token", "last_token"):
        return (op, n, 0, 0), lambda: [of(getattr(node, op)())]
    if op == "height":
        return (op, n, 0, 0), lambda: [node.height()]
    if op == "span":
        return (op, n, 0, 0), lambda: [node.pos, node.end]
    if op in ("find", "find_left"):
        return (op, n, pos, 0), lambda: [getattr(node, op)(pos)]
    if op.endswith("_trail"):
        def f():
            x, trail = getattr(node, op[:-6] + "_with_trail")(pos)
            return [-1] if x is None else [of(x), *trail]
        return (op, n, pos, 0), f
    if op.startswith("find"):
        return (op, n, pos, 0), lambda: [of(getattr(node, op)(pos))]
    e = rng.choice([NOEND, rng.randint(-2, size + 3), pos + rng.randint(0, 6), pos + rng.randint(0, 6)])
    args = (pos,) if e == NOEND else (pos, e)
    def f():
        r = node.range(*args)
        if r is None:
            return []
        return [r.pos, r.end] if op == "range_span" else many(r.tokens())
    return (op, n, pos, e), f


def doc_question(rng, num, doc):
    """The questions that documents, cursors and blocks answer."""
    from parce.document import Cursor
    size = len(doc)
    pos = rng.randint(0, size)
    op = rng.choice(["doc_token", "cursor_token", "cursor_tokens", "block_tokens"])
    if op == "doc_token":
        return (op, 0, pos, 0), lambda: [num.of(doc.token(pos))]
    if op == "cursor_token":
        return ("doc_token", 0, pos, 0), lambda: [num.of(Cursor(doc, pos, size).token())]
    if op == "block_tokens":
        return (op, 0, pos, 0), lambda: num.many(doc.find_block(pos).tokens())
    e = rng.choice([NOEND, rng.randint(pos, size), min(size, pos + rng.randint(0, 3))])
    return (op, 0, pos, e), lambda: num.many(Cursor(doc, pos, None if e == NOEND else e).tokens())


def questions(job):
    seed, quick, count, nq, maxlen = job
    rng = random.Random(seed)
    import parce
    res = []
    for _ in range(count):
        data = lang.Gen(rng, bounded=False, nlex=rng.choice([2, 3, 4, 5])).language()
        comp = lang.Compiled(data)
        ids = px.GenIds(comp)
        text = lang.rich_text(data, rng, rng.randint(0, maxlen))
        ev = []
        try:
            with cpu_limit(6):
                doc = parce.Document(comp.lexicon(1), text) if rng.random() < .5 else None
                root = doc.get_root(True) if doc is not None else parce.root(comp.lexicon(1), text)
                fl = px.flat(ids, root)
        except Hang:
            continue    # judged by C05
        num = Numbered(root)
        for _ in range(nq):
            (op, n, a, b), f = question(rng, num, len(text)) if doc is None or rng.random() < .6 \
                else doc_question(rng, num, doc)
            rec = {"op": op, "n": n, "a": a, "b": b, "r": [], "exc": ""}
            try:
                with cpu_limit(4):
                    rec["r"] = [int(x) for x in f()]
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"fl": fl, "text": codes(text), "ev": ev, "case": {"text": text, "lang": data}})
        if sum(1 for r in res if r["ev"] and r["ev"][-1]["exc"]) >= 3:
            break
    return res
