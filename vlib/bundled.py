"""Bundled languages and example texts."""
import glob
import importlib
import os
import random

from .core import VERIF

EXT = {
    "1": "troff.Troff", "bash": "bash.Bash", "c": "c.C", "css": "css.Css", "csv": "csv.Csv",
    "docbook": "docbook.DocBook", "dtd": "xml.Dtd", "html": "html.Html", "ini": "ini.Ini",
    "js": "javascript.JavaScript", "json": "json.Json", "ly": "lilypond.LilyPond",
    "py": "python.Python", "scm": "scheme.Scheme", "tcl": "tcl.Tcl", "tex": "tex.Latex",
    "texinfo": "texinfo.Texinfo", "toml": "toml.Toml", "xml": "xml.Xml", "xsl": "xslt.Xslt",
}


def lexicon(name):
    """"css.Css" or "css.Css.rule" -> the Lexicon."""
    parts = name.split(".")
    mod = importlib.import_module("parce.lang." + parts[0])
    cls = getattr(mod, parts[1])
    return getattr(cls, parts[2] if len(parts) > 2 else "root")


def texts():
    """List of (ext, lexicon name, text)."""
    res = []
    for f in sorted(glob.glob(os.path.join(VERIF, "corpus", "*.*"))):
        ext = f.rsplit(".", 1)[1]
        if ext in EXT:
            with open(f, encoding="utf-8") as fp:
                res.append((ext, EXT[ext], fp.read()))
    return res


def all_lexicons():
    """Names of all lexicons of all bundled languages."""
    res = []
    d = os.path.dirname(importlib.import_module("parce.lang").__file__)
    import parce.language
    from parce.lexicon import Lexicon
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f.startswith("_"):
            continue
        mod = importlib.import_module("parce.lang." + f[:-3])
        for n, cls in sorted(vars(mod).items()):
            if isinstance(cls, type) and issubclass(cls, parce.language.Language) and cls.__module__ == mod.__name__:
                for a in sorted(dir(cls)):
                    if isinstance(getattr(cls, a), Lexicon):
                        res.append("%s.%s.%s" % (f[:-3], n, a))
    return res


def snippet(rng, text, lo, hi):
    n = min(len(text), rng.randint(lo, hi))
    i = rng.randint(0, len(text) - n)
    return text[i:i + n]
