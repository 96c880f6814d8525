"""HTML output of documents in bundled languages with stub themes."""
import random
import re

from . import bundled, px
from .core import codes, cpu_limit, Hang, where
from .navdrive import NOEND

LANGS = ["html", "xml", "json", "css", "py", "js", "ly", "tex", "ini", "bash"]
SPECIAL = ["<", ">", "&", '"', "'", ";", "&amp;", "&lt", "</span>", "\n", "<b>", "é", "\u20ac", "&#60;", "]]>", "</pre>", "{x}", "%s", "\t"]
#: what tag k looks like in CSS
PROPS = {1: ("p01", "red"), 2: ("p02", '"A & B", serif'), 3: ("p03", "<x>"), 11: ("p11", "'&lt;'"), 12: ("p12", "#fff"),
         13: ("p13", '"'), 20: ("p20", "a>b")}


class Format(frozenset):
    """A set of tags, the last digit is the property."""
    def __add__(self, other):
        new = {y % 10 for y in other}
        return Format(other | {x for x in self if x % 10 not in new})

    def css_properties(self):
        d = [PROPS[k] for k in sorted(self, reverse=True)]
        return dict(d)


def make_theme(rng, ids, dense):
    from parce.theme import AbstractTheme
    n = lambda: [t for t in (1, 2, 3) if rng.random() < .4]
    data = {"base": [t + 10 for t in n()] if rng.random() < .7 else [], "addbase": False, "unparsed": [20] if rng.random() < .35 else [],
            "tab": [n() if rng.random() < dense else [] for _ in range(len(ids.act) + 1)]}

    class Theme(AbstractTheme):
        def baseformat(self, role="window", state="default"):
            return Format(data["base"]) if role == "window" else Format()
        def textformat(self, action):
            if str(action) == "_Unparsed":
                return Format(data["unparsed"])
            k = ids.act.get(id(action))
            return Format(data["tab"][k] if k is not None else [])
    return Theme(), data


def spoil(rng, text):
    for _ in range(rng.choice([0, 1, 3])):
        i = rng.randint(0, len(text))
        text = text[:i] + rng.choice(SPECIAL) + text[i:]
    if rng.random() < .2:
        text = "\n" + text
    return text


def pages(job):
    seed, quick, count, per, size = job
    rng = random.Random(seed)
    import parce
    from parce.out.html import HtmlFormatter, SimpleHtmlFormatter
    corpus = {x[0]: x for x in bundled.texts()}
    docs, traces, failed = [], [], 0
    for _ in range(count):
        ext, name, text = corpus[rng.choice(LANGS)]
        text = spoil(rng, bundled.snippet(rng, text, 0, size))
        ids = px.Ids()
        try:
            with cpu_limit(6):
                doc = parce.Document(bundled.lexicon(name), text)
                root = doc.get_root(True)
                fl = px.flat(ids, root)
                rootkey = ids.key(root.lexicon)[0]
        except Hang:
            continue
        lex = {n: l for l in ids.keep if (n := ids.lex.get(id(l)))}
        langs = []
        for n in range(1, len(ids.lex) + 1):
            if lex[n].language not in langs:
                langs.append(lex[n].language)
        acts = {n: a for a in ids.keep if (n := ids.act.get(id(a)))}
        docs.append({"fl": fl, "text": codes(text), "langs": [langs.index(lex[n].language) + 1 for n in range(1, len(ids.lex) + 1)],
                     "root": rootkey})
        for _ in range(per):
            n = len(text)
            s = rng.choice([0, rng.randint(0, n)])
            e = rng.choice([None, n, rng.randint(s, n), rng.randint(s, n)])
            full = rng.random() < .4
            tr = {"doc": len(docs), "s": s, "e": NOEND if e is None else e, "full": full, "themes": [], "style": [], "key": [], "pre": [], "ev": []}
            html = ""
            rec = {"exc": ""}
            try:
                with cpu_limit(6):
                    if rng.random() < .25:
                        f = SimpleHtmlFormatter()
                        tr["key"] = codes(" class=")
                        tr["themes"] = [{"lang": 0, "base": [], "addbase": False, "unparsed": [], "tab": [[]] + [[k] for k in range(1, len(acts) + 1)]}]
                        tr["style"] = [[k, codes(" ".join(x.lower() for x in str(acts[k]).split(".")))] for k in range(1, len(acts) + 1)]
                        base = []
                    else:
                        tr["key"] = codes(" style=")
                        dense = rng.choice([.3, .8])
                        th, d = make_theme(rng, ids, dense)
                        d["addbase"] = rng.random() < .4
                        if d["addbase"] or rng.random() < .5:
                            f = HtmlFormatter()
                            f.add_theme(th, None, d["addbase"])
                        else:
                            f = HtmlFormatter(th)
                        tr["themes"].append(dict(d, lang=0))
                        base = d["base"]
                        for k, l in enumerate(langs, 1):
                            if rng.random() < .3:
                                th, d = make_theme(rng, ids, dense)
                                d["addbase"] = rng.random() < .4
                                f.add_theme(th, l, d["addbase"])
                                tr["themes"].append(dict(d, lang=k))
                        tr["style"] = [[k, codes("%s: %s;" % PROPS[k])] for k in sorted(PROPS)]
                    tr["pre"] = codes("white-space: pre; " + " ".join("%s: %s;" % PROPS[k] for k in base))
                    c = parce.Cursor(doc, s, e)
                    html = f.full_html(c) if full else f.html(c)
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
                failed += 1
            if rec["exc"]:
                tr["ev"] = [dict(rec, c=[0])]
            else:
                tr["ev"] = [{"c": codes(x), "exc": ""} for x in re.findall(r'[<>&;"]|[^<>&;"]+', html)]
                if not html and s < (n if e is None else e):
                    tr["ev"] = [{"c": [0], "exc": "no output"}]
            tr["case"] = {"lang": name, "text": text, "s": s, "e": e, "full": full, "html": html, "themes": tr["themes"]}
            traces.append(tr)
        if failed >= 3:
            break
    return [{"docs": docs, "traces": traces}]
