"""Drives the real lexer with generated languages."""
import random

from . import lang, px
from .core import codes, cpu_limit, Hang, where


def failures(traces, n=3):
    """True when enough traces ended with an exception or hang."""
    return sum(1 for t in traces if t["ev"] and t["ev"][-1]["exc"]) >= n


def lex_one(comp, root, text, above=(), pos=0, api=False):
    """One line of a LexTrace. above: other lexicons that are open at the
    start; pos: the position where lexing starts."""
    import parce
    from parce.lexer import Lexer
    rec = {"text": codes(text), "above": [comp.key(l) for l in above], "pos": pos,
           "evs": [], "open": [], "tree": [], "exc": ""}
    try:
        with cpu_limit(4):
            lx = Lexer([root, *above])
            evs = list(lx.events(text, pos))
            if api and not above and not pos:
                evs = list(parce.events(root, text))
            tree = parce.root(root, text)
            rec["evs"] = px.events(px.GenIds(comp), evs)
            rec["open"] = [comp.key(l) for l in lx.lexicons]
            rec["tree"] = px.flat(px.GenIds(comp), tree)
    except Hang:
        rec["exc"] = "Hang"
    except Exception as e:
        rec["exc"] = where(e)
    return rec


def lex_traces(job):
    seed, quick, nlang, ntext, maxlen, bounded, *opts = job
    wild = "wild" in opts
    rng = random.Random(seed)
    res = []
    for _ in range(nlang):
        data = lang.Gen(rng, bounded=bounded, wild=wild, argy="argy" in opts).language()
        comp = lang.Compiled(data)
        ev = []
        arg = rng.choice([None] * 6 + ["a", "b(", "1"] if "argy" not in opts else ["a", "b(", "1", "ab", "xy", "\n"])
        for _ in range(ntext):
            text = lang.rich_text(data, rng, rng.randint(0, maxlen)) if rng.random() < .8 \
                else "".join(rng.choice(lang.ALPHA) for _ in range(rng.randint(0, maxlen)))
            above, pos = (), 0
            if not wild and rng.random() < .2:
                above = [comp.lexicon(rng.randint(1, len(data["lex"])), rng.choice(["a", "1"] if "argy" in opts else [None, None, "a", "1"]))
                         for _ in range(rng.choice([0, 1, 1, 2]))]
                pos = rng.randint(0, len(text))
            r = lex_one(comp, comp.lexicon(1, arg), text, above, pos, rng.random() < .5)
            ev.append(r)
            if r["exc"]:
                break
        res.append({"root": [1, lang.NONESTR if arg is None else codes(arg)], "ev": ev,
                    "langdata": data, "case": {"arg": arg}})
        if failures(res):
            break
    return res


def pack(traces):
    """Move the language data of the traces to a list."""
    langs, cases = [], []
    for t in traces:
        d = t.pop("langdata")
        langs.append(d)
        t["lang"] = len(langs)
        c = t.pop("case")
        c["lang"] = d
        cases.append(c)
    return {"langs": langs, "traces": traces}, cases


def model_languages(n, seed=7):
    """Fixed languages for the design model of the lexer."""
    rng = random.Random(seed)
    langs = []
    while len(langs) < n:
        langs.append(lang.Gen(rng, bounded=False, nlex=rng.choice([2, 3]), wild=len(langs) % 2 == 0).language())
    return langs


MODEL_CFG = """CONSTANTS
  MaxLen = %d
  MaxSteps = %d
SPECIFICATION Spec
INVARIANTS Ascending IsText WithinText RootStays Replay FewSteps TreeOk
PROPERTIES Monotone Terminates
"""


def model(ctx, n, maxlen):
    """Model check the lexer's transition system on n languages."""
    import json
    import os
    fn = os.path.join(ctx.work, "langs.json")
    with open(fn, "w") as f:
        json.dump({"langs": model_languages(n), "alpha": codes("ab1\n(")}, f)
    ctx.model("MCLexing", MODEL_CFG % (maxlen, 12 * (maxlen + 1)), env={"TRACE_FILE": fn})


def streams(job):
    """All lexicons of the bundled languages as root, on mutated texts."""
    from parce.lexer import Lexer
    from . import bundled
    seed, quick, part, parts, ntexts, size = job
    rng = random.Random(seed)
    examples = bundled.texts()
    res = []
    for i, name in enumerate(bundled.all_lexicons()):
        if i % parts != part:
            continue
        own = [t for e, n, t in examples if n.split(".")[0] == name.split(".")[0]] or [t for e, n, t in examples]
        ev = []
        ids = px.Ids()
        case = {"lexicon": name, "texts": []}
        texts = []
        for k in range(ntexts):
            x = rng.choice(own) if rng.random() < .8 else rng.choice(examples)[2]
            s = bundled.snippet(rng, x, 0, size)
            for _ in range(rng.randint(0, 6)):
                a = rng.randint(0, len(s))
                b = min(len(s), a + rng.choice([0, 0, 1, 3]))
                s = s[:a] + rng.choice(["", rng.choice("\"'<>{}()[]\\%#/*=;:@$&-+.,\n\t aZ09_\x00\u00e9\U0001f600"),
                                        bundled.snippet(rng, x, 1, 5)]) + s[b:]
            texts.append(s)
        recs = []
        for s in texts:
            rec = {"text": codes(s), "evs": [], "again": [], "nopen": 1, "exc": ""}
            case["texts"].append(s)
            try:
                with cpu_limit(8):
                    lx = Lexer([bundled.lexicon(name)])
                    rec["evs"] = px.events(ids, list(lx.events(s)))
                    rec["nopen"] = len(lx.lexicons)
            except Hang:
                rec["exc"] = "Hang"
            except Exception as e:
                rec["exc"] = where(e)
            recs.append(rec)
            if rec["exc"]:
                break
        for s, rec in reversed(list(zip(texts, recs))):
            if not rec["exc"]:
                with cpu_limit(20):
                    rec["again"] = px.events(ids, list(Lexer([bundled.lexicon(name)]).events(s)))
        res.append({"ev": recs, "case": case})
        if failures(res):
            break
    return res
