"""Asks real documents about their blocks and moves cursors."""
import random

from .core import codes, cpu_limit, Hang, where
from .docdrive import NONE, _n

CHARS = "aab   \t\n\n\n"
RARE = "\u00a0\u2003\u3000\r\x0b\x1c\u2028\u200b"
MOVES = ["move_start_of_block", "move_end_of_block", "select_start_of_block", "select_end_of_block", "select_all",
         "select_none", "lstrip", "rstrip", "strip"]


def full(b):
    return [b.block_number, b.pos, b.end, len(b), int(b.is_first()), int(b.is_last())]


def rand_text(rng, n, sep):
    s = ""
    while len(s) < n:
        r = rng.random()
        s += sep if r < .15 else rng.choice(RARE) if r < .2 else rng.choice(CHARS) if sep == "\n" or r < .5 else rng.choice("ab" + sep)
    return s


def split(text, sep):
    pos, res = 0, []
    for x in text.split(sep):
        res.append((pos, pos + len(x)))
        pos += len(x) + len(sep)
    return res


def questions(job):
    seed, quick, count, nq, maxlen = job
    rng = random.Random(seed)
    from parce.document import Document, Cursor
    import parce
    res = []
    for _ in range(count):
        sep = "\n" if rng.random() < .7 else rng.choice(["\r\n", "ab", "x"])
        text = init = rand_text(rng, rng.choice([0, 1, 3, maxlen // 2, maxlen]), sep)
        doc = Document(text) if rng.random() < .8 else parce.Document(None, text)
        doc.block_separator = sep
        ev = []
        cursor = Cursor(doc)
        for _ in range(nq):
            n = len(text)
            valid = [p for s, e in split(text, sep) for p in range(s, e + 1)]
            pos = lambda: rng.choice(valid) if rng.random() < .9 else n + rng.randint(0, 5) if sep == "\n" else rng.choice(valid)
            a, b = pos(), pos()
            chars = rng.choice([None, None, "a", " a", "\t \n", "b\u2003"])
            move = False
            r = rng.random()
            rec = {"op": "", "a": a, "b": 0, "x": [], "r": [], "exc": ""}
            if r < .08:
                op = "edit"
                a, b = sorted((min(a, n), min(b, n)))
                new = rand_text(rng, rng.randint(0, 4), sep)
                text = text[:a] + new + text[b:]
                rec.update(a=a, b=b, x=codes(new))
                def fn():
                    doc[a:b] = new
                    return []
            elif r < .6:
                op = rng.choice(["find_block", "start_end", "by_number", "by_number", "count", "blocks", "texts", "backward",
                                 "zigzag", "compare"])
                e = None if rng.random() < .3 else b
                if op == "find_block":
                    fn = lambda: [full(doc.find_block(a))]
                elif op == "start_end":
                    rec["a"] = a = min(a, n)
                    fn = lambda: [doc.find_start_of_block(a), doc.find_end_of_block(a)]
                elif op == "by_number":
                    k = len(split(text, sep))
                    rec["a"] = a = rng.randint(-k - 3, k + 3)
                    def fn():
                        x = doc.find_block_by_number(a)
                        return [] if x is None else [full(x)]
                elif op == "count":
                    fn = lambda: [doc.block_count()]
                elif op == "blocks":
                    rec["b"] = _n(e)
                    def fn():
                        if a == 0 and rng.random() < .5:
                            return [full(x) for x in (doc.blocks() if e is None else doc.blocks(end=e))]
                        return [full(x) for x in doc.blocks(a, e)]
                elif op == "texts":
                    rec["b"] = _n(e)
                    fn = lambda: [codes(x.text()) for x in doc.blocks(a, e)]
                elif op == "backward":
                    numbered = rng.random() < .5
                    def fn():
                        x, out = doc.find_block(a), []
                        if numbered:
                            x.block_number
                        while x is not None:
                            out.append(x)
                            x = x.previous_block()
                        return [full(x) for x in out]
                elif op == "zigzag":
                    numbered = rng.random() < .5
                    def fn():
                        x = doc.find_block(a)
                        if numbered:
                            x.block_number
                        y = x.previous_block()
                        y = x.next_block() if y is None else y.next_block()
                        return [] if y is None else [full(y)]
                else:
                    rec["b"] = b
                    def fn():
                        x, y = doc.find_block(a), doc.find_block(b)
                        return [int(v) for v in (x == y, x != y, x < y, x <= y, x > y, x >= y)]
            elif r < .75:
                op = rng.choice(["cursor_block", "cursor_blocks", "cursor_text", "selection"])
                a, b = sorted((a, b))
                a = min(a, n)
                e = None if rng.random() < .3 else b
                rec.update(a=a, b=_n(e))
                def fn():
                    c = cursor.select(a, e)
                    if op == "cursor_block":
                        return [full(c.block())]
                    if op == "cursor_blocks":
                        return [full(x) for x in c.blocks()]
                    if op == "cursor_text":
                        return [codes(c.text())]
                    return list(c.selection()) + [int(c.has_selection())]
            else:
                op = rng.choice(MOVES)
                a, b = sorted((min(a, n), min(b, n) if op.startswith(("move", "select")) else b))
                a = min(a, n)
                e = None if rng.random() < .3 else b
                rec.update(a=a, b=_n(e), x=codes(chars or "") if "strip" in op else [])
                def fn():
                    c = cursor.select(a, e)
                    m = getattr(c, op)
                    x = m(chars) if "strip" in op and chars else m()
                    assert x is c
                    return [c.pos, _n(c.end)]
            rec["op"] = op
            try:
                with cpu_limit(5):
                    rec["r"] = fn()
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
            ev.append(rec)
            if rec["exc"]:
                break
        res.append({"init": codes(init), "sep": codes(sep), "ev": ev, "case": {"text": init, "separator": sep}})
        if sum(1 for r in res if r["ev"] and r["ev"][-1]["exc"]) >= 3:
            break
    return res
