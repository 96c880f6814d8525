"""Registries: adding, inheriting, copying, and finding by name, file name, type and contents."""
import random

from .core import codes, cpu_limit, Hang, where

QUAL = ["parce.lang.css.Css.root", "parce.lang.json.Json.root", "parce.lang.xml.Xml.root", "parce.lang.bash.Bash.root",
        "parce.lang.css.Css.inline", "parce.lang.csv.Csv.root", "parce.lang.ini.Ini.root", "parce.lang.tcl.Tcl.root"]
NAMES = ["css", "CSS", "Css", "json", "Xml", "xml", "a", "A", "bash", "Foo bar", "foo BAR", "é", "Tcl", "x"]
PATS = ["*.c", "*.css", "Makefile", "*", "a?", "?", "*.[ch]", "[!a]*", "*.tar.*", "[a-c].x", "README*", "a", "*a*b*", "[ab", "*.C"]
FILES = ["a.c", "b.css", "Makefile", "a", "ab", "x.h", "x.C", "foo.tar.gz", "b.x", "README.txt", "aab", "[ab", "d.x", "-.x", "a.css", ""]
MIMES = ["text/css", "text/x", "text/css2", "application/json"]
WORDS = ["ab", "<a", "x", "()", "a.b", "\n#", "zz"]


def entry(rng, q, full):
    w = lambda: rng.choice([1, 2, 4, 4, 8])
    e = {"name": rng.choice(NAMES) if full or rng.random() < .5 else "", "desc": rng.choice(["d", "e"]) if full or rng.random() < .5 else "",
         "section": rng.choice(["", "S", "T"]), "author": rng.choice(["", "", "me", "you"]),
         "aliases": rng.sample(NAMES, rng.choice([0, 0, 1, 2])),
         "filenames": [(p, w()) for p in rng.sample(PATS, rng.choice([0, 1, 2, 3]))],
         "mimetypes": [(p, w()) for p in rng.sample(MIMES, rng.choice([0, 1, 1, 2]))],
         "guesses": [(p, w()) for p in rng.sample(WORDS, rng.choice([0, 1, 2, 3]))]}
    return e


def spec_entry(q, e):
    pairs = lambda x: [[codes(a), b] for a, b in x]
    return {"q": q, "cls": codes(q.split(".")[-2]), "name": codes(e["name"]), "desc": codes(e["desc"]), "section": codes(e["section"]),
            "author": codes(e["author"]), "aliases": [codes(a) for a in e["aliases"]], "filenames": pairs(e["filenames"]),
            "mimetypes": pairs(e["mimetypes"]), "guesses": pairs(e["guesses"])}


def real_entry(q, e, scale=8, unescape=True):
    """Entry of a real registry for TLC."""
    import re
    un = (lambda s: re.sub(r"\\(.)", r"\1", s, flags=re.S)) if unescape else (lambda s: s)
    return spec_entry(q, {"name": e.name, "desc": e.desc, "section": e.section, "author": e.author, "aliases": e.aliases,
                          "filenames": [(a, int(round(w * scale))) for a, w in e.filenames],
                          "mimetypes": [(a, int(round(w * scale))) for a, w in e.mimetypes],
                          "guesses": [(un(a), int(round(w * scale))) for a, w in e.guesses]})


def qual_of(lex):
    return lex.language.__module__ + "." + lex.language.__name__ + "." + lex.name


def blank(op, reg):
    e = spec_entry("x.y.z", {"name": "", "desc": "", "section": "", "author": "", "aliases": [], "filenames": [], "mimetypes": [], "guesses": []})
    return {"op": op, "reg": reg, "e": e, "h": "", "n": [], "f": [], "m": [], "c": [], "x": 0, "r": [], "keys": [], "exc": ""}


def loaded(data, url, lexicon, registry, mimetype):
    import parce
    from parce.docio import decode_data
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    if len(data) % 2:
        return decode_data(data, lexicon, registry=registry, url=url, mimetype=mimetype).root_lexicon
    d = parce.Document.from_bytes(data, url, lexicon, registry=registry, mimetype=mimetype, worker=Worker(TreeBuilder()))
    assert d.root_lexicon() is d.get_root(True).lexicon
    return d.root_lexicon()


def histories(job):
    seed, quick, count, nops = job
    rng = random.Random(seed)
    import re
    from parce.registry import Registry
    res, failed = [], 0
    for _ in range(count):
        regs = [Registry()]
        fb = [0]
        ev, src = [], []
        for _ in range(nops):
            op = rng.choice(["add"] * 5 + ["del", "new", "copy", "fallback"] + ["find"] * 5 + ["qualname"] * 3 + ["suggest"] * 6
                            + ["sections", "dump"])
            i = rng.randrange(len(regs))
            reg = regs[i]
            rec = blank(op, i + 1)
            q = rng.choice(QUAL)
            touched = reg
            def fn():
                nonlocal touched
                if op == "add":
                    inh = rng.choice(QUAL) if rng.random() < .25 else None
                    e = entry(rng, q, not inh or rng.random() < .3)
                    if rng.random() < .05:
                        e[rng.choice(["name", "desc"])] = ""
                    rec["e"], rec["h"] = spec_entry(q, e), inh or ""
                    kw = dict(e)
                    for k in ("filenames", "mimetypes"):
                        kw[k] = [(a, w / 8) for a, w in e[k]]
                    kw["guesses"] = [(re.escape(a), w / 8) for a, w in e["guesses"]]
                    kw = {k: v for k, v in kw.items() if v}
                    if inh:
                        kw["inherit"] = inh
                    reg.add(q, **kw)
                elif op == "del":
                    rec["h"] = q
                    reg.pop(q, None)
                elif op == "new":
                    if len(regs) < 4:
                        rec["x"] = rng.choice([0, i + 1])
                        regs.append(Registry(regs[rec["x"] - 1] if rec["x"] else None) if rec["x"] or rng.random() < .5 else Registry())
                        touched = regs[-1]
                    else:
                        rec["op"] = "none"
                elif op == "copy":
                    if len(regs) < 4:
                        regs.append(reg.copy())
                        touched = regs[-1]
                    else:
                        rec["op"] = "none"
                elif op == "fallback":
                    x = rng.randint(0, i)       # no cycles
                    rec["x"] = x
                    reg.fallback = regs[x - 1] if x else None
                elif op in ("find", "qualname"):
                    if op == "qualname" or rng.random() < .5:
                        n = rng.choice(NAMES + ["nope", "Json", "ini", "CSV", "TCL"])
                        rec["n"] = codes(n)
                        if op == "qualname":
                            r = reg.qualname(n)
                            rec["r"] = [r] if r else []
                            return
                        if rng.random() < .2:
                            lex = loaded(b"", rng.choice([None, *FILES]), n, reg, None)
                        else:
                            lex = reg.find(n, filename=rng.choice(FILES))
                    else:
                        f, m, c = guess()
                        if rng.random() < .3:
                            # the language of a document that is loaded
                            url = f and rng.choice(["", "/d.c/", "x.h/", "http://d/"]) + f
                            enc = rng.choice(["ascii", "ascii", "utf-8-sig", "utf-16"])
                            lex = loaded((c or "").encode(enc), url, True, reg, m)
                        else:
                            lex = reg.find(filename=f, mimetype=m, contents=c)
                    if lex is not None:
                        rec["r"] = [qual_of(lex)]
                        assert lex is Registry.lexicon(rec["r"][0])
                elif op == "suggest":
                    f, m, c = guess()
                    rec["r"] = list(reg.suggest(f, m, c))
                elif op == "sections":
                    rec["r"] = [{"q": q, "section": codes(s)} for s, d in reg.by_section().items() for q in d]
                elif op == "dump":
                    rec["r"] = [real_entry(q, e) for q, e in reg.items()]
            def guess():
                f = rng.choice(FILES) if rng.random() < .6 else None
                m = rng.choice(MIMES + ["nope/x"]) if rng.random() < .4 else None
                c = None
                if rng.random() < .6:
                    if f and reg and rng.random() < .3:
                        f = rng.choice(["*", "a.c", "a"])[:3]       # often more than one entry
                    c = "".join(rng.choice(WORDS + [" ", "q"]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6])))
                    if rng.random() < .04:
                        c = "q" * rng.choice([4997, 4999, 5000]) + c
                rec["f"], rec["m"], rec["c"] = codes(f or ""), codes(m or ""), codes(c or "")
                return f, m, c
            try:
                with cpu_limit(8):
                    fn()
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
            rec["keys"] = list(touched)
            ev.append(rec)
            failed += bool(rec["exc"]) and op != "add"
        res.append({"start": [], "ev": ev, "case": {"ops": [{k: v for k, v in e.items() if v} for e in ev]}})
        if failed > 3:
            break
    return res


def bundled(job):
    """The registry with the bundled languages."""
    seed, quick = job[:2]
    rng = random.Random(seed)
    import parce
    from parce.registry import registry
    start = [real_entry(q, e, 1000, False) for q, e in registry.items()]
    ev = []
    def line(op, fn, **kw):
        rec = blank(op, 1)
        rec.update(kw)
        try:
            with cpu_limit(8):
                rec["r"] = fn()
        except Hang:
            rec["exc"] = "Hang"
        except Exception as ex:
            rec["exc"] = where(ex)
        rec["keys"] = list(registry)
        ev.append(rec)
    def found(lex):
        return [] if lex is None else [qual_of(lex)]
    names = []
    for q, e in registry.items():
        names += [e.name, *e.aliases, q.split(".")[-2]]
    for n in names + ["no such language"]:
        for v in {n, n.lower(), n.upper(), n.swapcase()}:
            line("find", lambda: found(parce.find(v) if rng.random() < .5 else registry.find(v)), n=codes(v))
    for q, e in registry.items():
        for p, w in e.filenames:
            f = p.replace("*", rng.choice(["x", "a b", "x.y"]))
            if "[" in f:
                f = f.replace("[", "", 1).split("]")[0][:-1] + f.split("]", 1)[1]
            line("find", lambda: found(parce.find(filename=f)), f=codes(f))
            line("suggest", lambda: registry.suggest(f), f=codes(f))
        for p, w in e.mimetypes:
            line("suggest", lambda: registry.suggest(mimetype=p), m=codes(p))
            line("find", lambda: found(registry.find(mimetype=p)), m=codes(p))
    line("dump", lambda: [real_entry(q, e, 1000, False) for q, e in registry.items()])
    return [{"start": start, "ev": ev[i:i + 40], "case": {"bundled": i}} for i in range(0, len(ev), 40)]
