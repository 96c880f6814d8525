"""Documents that are loaded, edited and saved in various encodings and newline styles."""
import codecs
import os
import random
import shutil
import tempfile

from .core import codes, cpu_limit, Hang, where

NAMES = {"ascii": ["ascii", "US-ASCII"], "latin1": ["latin1", "iso-8859-1", "ISO8859-1"], "utf8": ["utf-8", "UTF-8", "utf8"],
         "utf8sig": ["utf-8-sig"], "utf16": ["utf-16", "UTF-16"], "utf16le": ["utf-16-le", "utf_16_le"], "utf16be": ["utf-16-be"],
         "utf32": ["utf-32"], "utf32le": ["utf-32-le"], "utf32be": ["utf-32-be"]}
CANON = {codecs.lookup(n).name: k for k, ns in NAMES.items() for n in ns}
NL = {"none": None, "": "", "lf": "\n", "cr": "\r", "crlf": "\r\n"}
BOMS = {"utf8": codecs.BOM_UTF8, "utf16le": codecs.BOM_UTF16_LE, "utf16be": codecs.BOM_UTF16_BE,
        "utf32le": codecs.BOM_UTF32_LE, "utf32be": codecs.BOM_UTF32_BE}
#: kinds of documents: lexicon name, ways to mention an encoding
KINDS = {"none": (None, ["# encoding: %s\n", 'x encoding="%s"\n', "encoding:%s ", "-*- coding: %s -*-\n"]),
         "css": ("parce.lang.css.Css.root", ['@charset "%s";\n', '/* x */ @charset  "%s";']),
         "xml": ("parce.lang.xml.Xml.root", ['<?xml version="1.0" encoding="%s"?>\n']),
         "html": ("parce.lang.html.Html.root", ['<html><head><meta charset="%s"></head>\n',
                  '<meta http-equiv="Content-Type" content="text/html; charset=%s">\n']),
         "xhtml": ("parce.lang.html.XHtml.root", ['<?xml version="1.0" encoding="%s"?><html></html>\n',
                                                '<html><head><meta charset="%s"/></head></html>\n']),
         "ly": ("parce.lang.lilypond.LilyPond.root", ["%% encoding: %s\n"]),
         "json": ("parce.lang.json.Json.root", ["// encoding: %s\n"]),
         "own": ("vlib.iolang.Own.root", ["# encoding: %s\n"]),
         "child": ("vlib.iolang.Child.root", ["# coding: %s\n"]),
         "other": ("vlib.iolang.Other.root", ["@@%s@@ x\n", "a\n@@%s@@"]),
         "plain": ("vlib.iolang.Plain.root", ["# encoding: %s\n"])}
#: the default encoding of a kind of document, if there is one
DEFAULTS = {"css": "utf8", "ly": "utf8", "own": "latin1", "child": "latin1", "other": "utf16le"}
#: not local files
REMOTE = ["http://example.org/%s", "https://%s", "file://example.org/%s", "//host/%s", "ftp:%s", "mailto:%s", "data:%s"]
#: names of the root lexicon in the registry
NAMED = {"css": "css", "xml": "xml", "html": "html", "xhtml": "XHTML", "ly": "lilypond", "json": "JSON"}
ASCII = ["ascii", "latin1", "utf8"]      # encodings in which a mention can be found without mark


def lexicon(kind):
    name = KINDS[kind][0]
    return None if name is None else import_lexicon(name)


def import_lexicon(name):
    from importlib import import_module
    mod, cls, lex = name.rsplit(".", 2)
    return getattr(getattr(import_module(mod), cls), lex)


def body(rng, wide):
    alpha = "ab <>\"'{}=/\n\n" + {0: "", 1: "éÿþï»¿", 2: "é€\ufeff\U0001d11e\u0100"}[wide]
    s = "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 5, 20])))
    if rng.random() < .25:
        s += "\r\n" if rng.random() < .5 else "\rx"
    if rng.random() < .03:
        s += rng.choice(alpha[0] + alpha[-1] + "é") * rng.choice([1700, 2600, 4990, 5010]) + rng.choice("é\nb")
    return s


def canon(name):
    if not name:
        return ""
    try:
        return CANON.get(codecs.lookup(name).name, name)
    except LookupError:
        return name


def histories(job):
    seed, quick, count, nops = job
    rng = random.Random(seed)
    top = tempfile.mkdtemp(prefix="verifio")
    res, failed = [], 0
    try:
        for k in range(count):
            d = os.path.join(top, str(k))
            os.makedirs(d)
            tr = history(rng, d, nops)
            shutil.rmtree(d, ignore_errors=True)
            res.append(tr)
            failed += any(e["exc"] and e["op"] != "remote" and not e["exc"].startswith("Unicode") for e in tr["ev"])
            if failed >= 3:
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return res


def history(rng, d, nops):
    import parce
    import parce.work
    kind = rng.choice(list(KINDS))
    lex = lexicon(kind)
    dflt = DEFAULTS.get(kind, "")
    def worker():
        from parce.treebuilder import TreeBuilder
        return parce.work.Worker(TreeBuilder(lex))
    files = [os.path.join(d, n) for n in ("one.txt", "t wo")]
    state = {"doc": parce.Document(lex, "", worker=worker()), "mention": ""}
    onfile = {}
    ev, log = [], []

    def mention():
        """(canonical, prefix of the text)"""
        r = rng.random()
        if r < .5:
            return "", rng.choice(["", "", "<a>\n"])
        if r < .6:
            return "", rng.choice(KINDS[kind][1]) % "no-such-thing"
        e = rng.choice(ASCII)
        return e, rng.choice(KINDS[kind][1]) % rng.choice(NAMES[e])

    def rec(op, **kw):
        r = {"op": op, "file": 0, "given": "", "mention": "", "dflt": dflt, "nl": "none", "intext": [], "indata": [], "exc": "",
             "err": "", "how": ""}
        r.update(kw)
        return r

    def observe(r):
        doc = state["doc"]
        r["text"] = codes(doc.text())
        r["enc"] = canon(doc.encoding)
        r["mod"] = bool(doc.modified)
        f = r["file"]
        r["data"] = []
        if f and os.path.exists(files[f - 1]):
            with open(files[f - 1], "rb") as fh:
                r["data"] = list(fh.read())
        if len(r["text"]) + len(r["data"]) > 3000 and len(ev) > 4:
            nonlocal_stop.append(1)
        ev.append(r)

    nonlocal_stop = []
    def run(r, fn):
        try:
            with cpu_limit(8):
                fn()
        except Hang:
            r["exc"] = "Hang"
        except Exception as ex:
            r["exc"], r["err"] = where(ex), "ValueError" if isinstance(ex, ValueError) else type(ex).__name__
        observe(r)

    def given():
        e = rng.choice(["", "", "", *NAMES])
        return e, (rng.choice(NAMES[e]) if e else None)

    long = rng.random() < .03
    for k in range(nops):
        if nonlocal_stop:
            break
        op = rng.choice(["put", "edit", "edit", "save", "save", "save", "load", "load", "load", "bytes", "new", "remote"])
        doc = state["doc"]
        f = rng.randint(1, 2)
        if long and k < 2:
            # a long file with a mark, the character at the end of the part that is searched consists of several bytes
            op, f = "put" if k == 0 else "load", 1
        if long and k == 0:
            e = rng.choice(["utf8", "utf8", "utf16le", "utf32be"])
            ch = rng.choice("é€\U0001d11e")
            s = "x" * rng.randint(0, 3) + ch * (5002 // len(ch.encode(e_ := NAMES[e][0])) + 2)
            data = BOMS[e] + s.encode(e_)
            with open(files[0], "wb") as fh:
                fh.write(data)
            onfile[1] = "", e
            observe(rec("put", file=1, indata=list(data)))
            nonlocal_stop.clear()
        elif op == "put":
            m, pre = mention()
            e = m or rng.choice(list(NAMES))
            if rng.random() < .15:
                e = rng.choice(ASCII)
            s = pre + body(rng, 0 if e == "ascii" else 1 if e == "latin1" else 2)
            try:
                data = s.encode(NAMES[e][0])
            except UnicodeError:
                continue
            if e in BOMS and rng.random() < .4:
                data = BOMS[e] + data
            with open(files[f - 1], "wb") as fh:
                fh.write(data)
            onfile[f] = m, e
            r = rec("put", file=f, indata=list(data))
            observe(r)
        elif op in ("edit", "new"):
            m, pre = mention()
            s = pre + body(rng, rng.choice([0, 1, 2, 2]))
            if s == doc.text():
                continue
            state["mention"] = m
            if op == "edit":
                r = rec("edit", intext=codes(s))
                def fn():
                    doc[:] = s
            else:
                g, name = given()
                r = rec("new", intext=codes(s), given=g)
                def fn():
                    state["doc"] = parce.Document(lex, s, encoding=name, worker=worker())
            run(r, fn)
        elif op == "bytes":
            g, name = given()
            nl = rng.choice(list(NL))
            r = rec("bytes", given=g, nl=nl, mention=state["mention"])
            box = []
            r["file"] = 3
            def fn():
                box.append(doc.to_bytes(name, NL[nl]))
            try:
                with cpu_limit(8):
                    fn()
            except Exception as ex:
                r["exc"] = where(ex)
            r.update(text=codes(doc.text()), enc=canon(doc.encoding), mod=bool(doc.modified), data=list(box[0]) if box else [])
            if not box:
                r["file"] = 0
            ev.append(r)
        elif op == "remote":
            url = rng.choice(REMOTE) % files[f - 1].lstrip("/")
            r = rec("remote")
            r["how"] = url
            if rng.random() < .5:
                fn = lambda: parce.Document.load(url, lex, worker=worker())
            else:
                def fn():
                    old = doc.url
                    try:
                        doc.save(url)
                    finally:
                        doc.url = old
            run(r, fn)
        elif op == "save":
            g, name = given()
            nl = rng.choice(list(NL))
            r = rec("save", file=f, given=g, nl=nl, mention=state["mention"])
            url = files[f - 1]
            text = doc.text()
            use = g or canon(doc.encoding) or state["mention"] or dflt or "utf8"
            before = len(ev)
            run(r, lambda: doc.save(url if rng.random() < .7 or doc.url != url else None, name, NL[nl]))
            if not r["exc"]:
                onfile[f] = state["mention"], use
        else:
            if f not in onfile:
                continue
            m, e = onfile[f]
            true = m
            with open(files[f - 1], "rb") as fh:
                data = fh.read()
            bom = any(data.startswith(b) for b in BOMS.values())
            if e not in ASCII and not bom:
                m = ""              # cannot be seen
            g, name = given() if rng.random() < .5 or e not in NAMES else (e, NAMES[e][0])
            if e not in ASCII and not bom and g != e and not (g == "" and e == dflt):
                g, name = e, NAMES[e][0]
            nl = rng.choice(["none", "none", "none", "", "lf", "cr", "crlf"])
            r = rec("load", file=f, given=g, nl=nl, mention=m)
            how = rng.random()
            def fn():
                if how < .2 and lex is not None and kind in NAMED:
                    n = parce.Document.load(files[f - 1], NAMED[kind], name, None, NL[nl], worker=worker())
                elif how < .6:
                    n = parce.Document.load(files[f - 1], lex, name, None, NL[nl], worker=worker())
                elif how < .8:
                    n = parce.Document.from_bytes(data, files[f - 1], lex, name, None, NL[nl], worker=worker())
                else:
                    n = parce.Document.load("file://" + files[f - 1], lex, encoding=name, newline=NL[nl], worker=worker())
                assert n.root_lexicon() is lex and n.url.endswith(files[f - 1])
                state["doc"] = n
            run(r, fn)
            if not r["exc"]:
                state["mention"] = true
    return {"ev": ev, "case": {"kind": kind, "ops": [{k: (v if not isinstance(v, list) or len(v) < 80 else "%d items" % len(v))
                                                        for k, v in e.items()} for e in ev]}}

