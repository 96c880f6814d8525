"""Style sheets: generated as data and as text, loaded by the real code, queried for elements and actions."""
import os
import random
import re
import shutil
import tempfile

from .core import codes, cpu_limit, Hang, where

NAMES = ["a", "b", "p", "div", "x-y", "Pé"]
CLASSES = ["a", "b", "c", "k-1", "_u", "Ü"]
IDS = ["i", "j", "#x"]
ATTRS = ["t", "lang", "data-x", "class", "id"]
VALS = ["", "a", "ab", "a b", "en", "en-US", "EN-us", "b a c", "x\"y", "it's", "a\\b", "é", "line\nx", " a "]
PCS = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "empty", "hover", "focus"]
PES = ["before", "selection"]
PROPS = ["p1", "zoo", "x-long-name", "width"]
QUERIES = ["screen", "print", "tty"]


# rendering -------------------------------------------------------------------

def ident(rng, s):
    res = ""
    for n, c in enumerate(s):
        if not re.match(r"[\w-]", c):
            res += "\\" + c if rng.random() < .5 else "\\%x " % ord(c)
        elif rng.random() < .04:
            res += "\\%x " % ord(c)
        else:
            res += c
    return res


def string(rng, s):
    q = rng.choice("\"'")
    res = ""
    for c in s:
        if c in (q, "\\"):
            res += "\\" + c if rng.random() < .6 else "\\%x " % ord(c)
        elif c == "\n" or rng.random() < .04:
            res += "\\%x " % ord(c)
        else:
            res += c
        if rng.random() < .02:
            res += "\\\n"       # continues on the next line
    return q + res + q


def ws(rng, always=False):
    r = rng.random()
    if r < .5:
        return " "
    if r < .8 and not always:
        return ""
    if r < .9:
        return "\n  "
    return " /* {c} ; */ "


def compound_text(rng, c):
    def attr(x):
        res = "[" + ident(rng, x["n"])
        if x["op"]:
            v = x["v"]
            plain = re.fullmatch(r"[A-Za-z][\w-]*", v) and rng.random() < .5
            res += rng.choice(["", " "]) + x["op"] + rng.choice(["", " "]) + (ident(rng, v) if plain else string(rng, v))
            if x["ci"]:
                res += " " + rng.choice("iI")
        return res + rng.choice(["", " "]) + "]"
    rest = ["#" + ident(rng, x) for x in c["ids"]] + ["." + ident(rng, x) for x in c["cls"]] \
        + [attr(x) for x in c["attrs"]]
    rng.shuffle(rest)
    rest += [":" + x for x in c["pcs"]] + ["::" + x for x in c["pes"]]
    el = ident(rng, c["el"])
    if not el and (not rest or rng.random() < .2):
        el = "*"
    return el + "".join(rest)


def sel_text(rng, s):
    res = compound_text(rng, s["c"][0])
    for op, c in zip(s["ops"], s["c"][1:]):
        res += (ws(rng, True) if op == " " else ws(rng) + op + ws(rng)) + compound_text(rng, c)
    return res


def decls_text(rng, decls):
    parts = [d["p"] + rng.choice(["", " "]) + ":" + ws(rng) + d["text"] + (" !important" if d["imp"] else "") for d in decls]
    return (";" + ws(rng)).join(parts) + rng.choice([";", " ; ", ""])


def items_text(rng, items, here, path):
    out = []
    for it in items:
        if it["k"] == "rule":
            out.append((ws(rng) + "," + ws(rng)).join(sel_text(rng, s) for s in it["sels"]) + ws(rng)
                       + "{" + ws(rng) + decls_text(rng, it["decls"]) + "}")
        elif it["k"] == "at":
            out.append("@" + it["kw"] + ws(rng) + "{" + ws(rng) + decls_text(rng, it["decls"]) + "}")
        elif it["k"] == "cond":
            out.append("@%s %s %s{ %s }" % (it["kw"], it["q"], rng.choice(["", " "]), items_text(rng, it["items"], here, path)))
        else:
            name = os.path.relpath(path[it["file"]], os.path.dirname(path[here]) or ".")
            if rng.random() < .2:
                name = "./" + name
            ref = string(rng, name) if rng.random() < .5 else "url(%s)" % rng.choice([name, string(rng, name)])
            out.append("@import " + ref + (" " + it["q"] if it["q"] else "") + ";")
        if rng.random() < .08:
            out.append(rng.choice(["@page { margin: 1px }", "@page :left { a: b }", "/* a {b: c} */", "@namespace x;"]))
    return "\n".join(out)


# generation ------------------------------------------------------------------

def gen_compound(rng, theme):
    c = {"el": "", "ids": [], "cls": [], "attrs": [], "pcs": [], "pes": []}
    if theme:
        c["cls"] = rng.sample(theme, rng.choice([0, 1, 1, 1, 2]))
        if rng.random() < .1:
            c["pcs"] = [rng.choice(["focus", "disabled"])]
        if rng.random() < .1:
            c["pes"] = ["selection"]
        return c
    if rng.random() < .5:
        c["el"] = rng.choice(NAMES)
    if rng.random() < .2:
        c["ids"] = [rng.choice(IDS)]
    if rng.random() < .4:
        c["cls"] = rng.sample(CLASSES, rng.choice([1, 1, 2]))
    if rng.random() < .3:
        c["attrs"] = [{"n": rng.choice(ATTRS), "op": rng.choice(["", "=", "~=", "|=", "^=", "$=", "*="]),
                       "v": rng.choice(VALS), "ci": False} for _ in range(rng.choice([1, 1, 2]))]
        for a in c["attrs"]:
            if not a["op"]:
                a["v"] = ""
            elif rng.random() < .25:
                a["ci"] = True
    if rng.random() < .2:
        c["pcs"] = [rng.choice(PCS)]
    if rng.random() < .05:
        c["pes"] = [rng.choice(PES)]
    return c


def fit_compound(rng, e):
    """A compound that fits, or almost fits, the element."""
    c = {"el": "", "ids": [], "cls": [], "attrs": [], "pcs": [], "pes": []}
    if rng.random() < .5:
        c["el"] = e["name"]
    for n, v in e["attrs"].items():
        if n == "class" and rng.random() < .5:
            c["cls"] = rng.sample(v.split(), rng.randint(1, len(v.split())))
        elif n == "id" and rng.random() < .5:
            c["ids"] = [v]
        elif rng.random() < .3:
            op = rng.choice(["", "=", "~=", "|=", "^=", "$=", "*="])
            k, l = sorted(rng.randint(0, len(v)) for _ in range(2))
            w = {"": "", "=": v, "~=": rng.choice(v.split() or ["x"]), "|=": v.split("-")[0], "^=": v[:l], "$=": v[k:], "*=": v[k:l]}[op]
            ci = bool(op) and rng.random() < .4
            if ci and w.isascii():
                w = w.swapcase()
            c["attrs"].append({"n": n, "op": op, "v": w, "ci": ci})
    if rng.random() < .1:
        c["pcs"] = [rng.choice(PCS)]
    if e["pcs"] and rng.random() < .2:
        c["pcs"] = e["pcs"][:1]
    r = rng.random()
    if r < .05:
        c["ids"] = c["ids"] + [rng.choice(IDS)]
    elif r < .1:
        c["cls"] = c["cls"] + [rng.choice(CLASSES)]
    elif r < .15:
        c["el"] = rng.choice(NAMES)
    return c


def fit_sel(rng, els):
    """A selector that goes from an element to other elements."""
    k = rng.randrange(len(els))
    cs, ops = [fit_compound(rng, els[k])], []
    for _ in range(rng.choice([0, 0, 1, 2, 2, 3])):
        op = rng.choice([" ", " ", ">", "+", "~"])
        par = els[k]["par"]
        if op in " >":
            if not par:
                break
            k = par - 1
            while op == " " and els[k]["par"] and rng.random() < .4:
                k = els[k]["par"] - 1
        else:
            sibs = [i for i in range(k) if els[i]["par"] == par]
            if not par or not sibs:
                continue
            k = sibs[-1] if op == "+" else rng.choice(sibs)
        ops.insert(0, op)
        cs.insert(0, fit_compound(rng, els[k]))
    return {"c": cs, "ops": ops}


def gen_sel(rng, theme, els=None):
    if els and els[0].get("deep") and rng.random() < .7:
        # names only, all combinators
        n = rng.choice([2, 3, 3, 4, 4])
        return {"c": [{"el": rng.choice(els)["name"] if rng.random() < .9 else "", "ids": [], "cls": [], "attrs": [], "pcs": [], "pes": []}
                      for _ in range(n)], "ops": [rng.choice([" ", " ", ">", "+", "~", "~"]) for _ in range(n - 1)]}
    if els and not theme and rng.random() < .5:
        return fit_sel(rng, els)
    n = rng.choice([1, 1, 1, 2, 2, 3] if theme else [1, 1, 2, 2, 3, 4])
    return {"c": [gen_compound(rng, theme) for _ in range(n)],
            "ops": [rng.choice([" ", ">"] if theme else [" ", " ", ">", "+", "~", "~"]) for _ in range(n - 1)]}


COLORS = {"red": (255, 0, 0), "lime": (0, 255, 0), "black": (0, 0, 0), "dimgray": (105, 105, 105), "navy": (0, 0, 128),
          "orange": (255, 165, 0), "teal": (0, 128, 128), "white": (255, 255, 255),
          "gold": (255, 215, 0), "tomato": (255, 99, 71), "indigo": (75, 0, 130)}


def gen_color(rng):
    k = rng.random()
    alpha = rng.choice([1, 1, 1, 0])
    part = rng.choice([0, 0, 0, 1, 2, 3, 4]) if not alpha else 0      # fifths
    tail = "" if alpha else ",%g" % (part / 5)
    if k < .25:
        n = rng.choice(list(COLORS))
        rgb, text, tail = COLORS[n], n, ""
    elif k < .45:
        d = [rng.randint(0, 15) for _ in range(3)]
        rgb, text = [x * 17 for x in d], "#" + "".join(rng.choice(["%x", "%X"]) % x for x in d)
        if not alpha or rng.random() < .3:
            text += rng.choice("fF") if alpha else "%x" % (part * 3)
    elif k < .65:
        rgb = [rng.choice([0, 1, 16, 128, 255, rng.randint(0, 255)]) for _ in range(3)]
        text = "#%02x%02X%02x" % tuple(rgb)
        if not alpha or rng.random() < .3:
            text += rng.choice(["ff", "FF"]) if alpha else "%02x" % (part * 51)
    elif k < .9:
        d = [rng.choice([0, 1, 16, 128, 255, rng.randint(0, 255), 256, 300, -1, -20]) for _ in range(3)]
        rgb = [min(255, max(0, x)) for x in d]
        if alpha:
            text = rng.choice(["rgb(%d, %d, %d)", "rgb(%d,%d,%d)", "rgba(%d, %d, %d, 1)", "rgb( %d %d %d )", "rgba(%d, %d, %d, 100%%)",
                               "rgba(%d, %d, %d, 2)"]) % tuple(d)
        else:
            text = rng.choice(["rgba(%d, %d, %d, {0})", "rgba(%d %d %d {0})", "rgba(%d, %d, %d, {1}%%)", "rgba(%d, %d, %d, {2:.1f}%%)",
                               "rgb(%d %d %d / {2}%%)"]).format("%g" % (part / 5), part * 20, part * 20.0) % tuple(d)
    elif k < .93:
        return "0,0,0,0", "transparent"
    else:
        d = [rng.choice([0, 20, 40, 100, 120, -10]) for _ in range(3)]
        rgb = [min(255, max(0, x * 51 // 20)) for x in d]
        text = rng.choice(["rgb(%d%%, %d%%, %d%%)", "rgb(%.1f%%, %d%%, %.2f%%)", "rgb(%d%% %.1f%% %d%%)"]) % tuple(d)
        tail = ""
    return ",".join(map(str, rgb)) + tail, text


def gen_value(rng, prop, theme):
    if not theme:
        k = rng.random()
        if k < .6:
            v = "v%d" % rng.randint(0, 9)
            return v, v
        if k < .7:
            v = "v%d w%d" % (rng.randint(0, 9), rng.randint(0, 9))
            return v, v
        if k < .85:
            v = rng.choice(["0", "1", "12px", "0px", "50%", "1.5em", "-3"])
            return v, v
        v = rng.choice([x for x in VALS if "\n" not in x])
        return "'" + v, string(rng, v)
    if rng.random() < .05 and prop not in ("text-decoration-line", "font-family"):
        return "", rng.choice(["foo", "inherit", "unset", "foo bar", "unknown-thing"])      # has no meaning for a format
    if prop.endswith("color"):
        return gen_color(rng)
    if prop == "font-weight":
        v = rng.choice(["bold", "normal", "lighter", "bolder", "100", "700"])
    elif prop == "font-size":
        v = rng.choice(["12pt", "10px", "1.5em", *SIZES])
    elif prop == "font-style":
        v = rng.choice(["normal", "italic", "oblique", "oblique 10deg", "oblique -2.5grad"])
    elif prop in KEYWORDS:
        v = rng.choice(KEYWORDS[prop])
    elif prop == "text-decoration-line":
        vs = rng.sample(["underline", "overline", "line-through"], rng.choice([1, 1, 2, 3]))
        return ",".join(vs), " ".join(vs)
    else:
        vs = [rng.choice(["serif", "monospace", "My Font", "O\"x y", "b\\c d", "Wît's"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        return ",".join(vs), rng.choice([",", ", ", " ,"]).join(v if v in ("serif", "monospace") else string(rng, v) for v in vs)
    return v, v


SIZES = ["xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "xxx-large", "larger", "smaller"]
STRETCH = ["ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "semi-expanded", "expanded", "extra-expanded",
           "ultra-expanded"]
KEYWORDS = {"font-kerning": ["auto", "normal", "none"], "font-stretch": STRETCH + ["75%"],
            "font-variant-caps": ["normal", "small-caps", "all-small-caps", "petite-caps", "all-petite-caps", "unicase", "titling-caps"],
            "font-variant-position": ["normal", "sub", "super"],
            "text-decoration-style": ["solid", "double", "dotted", "dashed", "wavy"]}


def gen_short(rng):
    """A shorthand property: (name, text, [[longhand, value], ...])."""
    prop = rng.choice(["background", "text-decoration", "font", "font"])
    parts = []
    if prop == "background":
        if rng.random() < .8:
            v, t = gen_color(rng)
            parts.append(([["background-color", v]], t))
        parts += [([], x) for x in rng.sample(["repeat-x", "fixed", "none", "url(x.png)"], rng.choice([0, 0, 1, 2]))]
        rng.shuffle(parts)
    elif prop == "text-decoration":
        for p in ("text-decoration-line", "text-decoration-style", "text-decoration-color"):
            if rng.random() < .6:
                v, t = gen_value(rng, p, True)
                parts.append(([[p, v]] if v else [], t))
        rng.shuffle(parts)
    else:
        if rng.random() < .4:
            v = rng.choice(["italic", "oblique", "oblique 10deg", "oblique -2.5grad"])
            parts.append(([["font-style", v]], v))
        if rng.random() < .3:
            parts.append(([["font-variant-caps", "small-caps"]], "small-caps"))
        if rng.random() < .4:
            v = rng.choice(["bold", "lighter", "bolder", "100", "700"])
            parts.append(([["font-weight", v]], v))
        if rng.random() < .3:
            v = rng.choice(STRETCH)
            parts.append(([["font-stretch", v]], v))
        rng.shuffle(parts)
        v = rng.choice(["12pt", "10px", "1.5em", "80%", *SIZES])
        parts.append(([["font-size", v]], v + rng.choice(["", "", "", "/1.5", "/20px", " / 120%"])))
        vs = [rng.choice(["serif", "monospace", "My Font", "O\"x y", "b\\c d", "Wît's"]) for _ in range(rng.choice([1, 1, 2]))]
        parts.append(([["font-family", ",".join(vs)]],
                      rng.choice([",", ", "]).join(v if v in ("serif", "monospace") else string(rng, v) for v in vs)))
    return prop, " ".join(t for _, t in parts), [x for xs, _ in parts for x in xs]


TPROPS = ["color", "background-color", "caret-color", "font-weight", "font-size", "font-style", "font-family",
          "font-kerning", "font-stretch", "font-variant-caps", "font-variant-position",
          "text-decoration-line", "text-decoration-style", "text-decoration-color"]


def gen_rule(rng, st):
    props = TPROPS if st["theme"] else PROPS
    decls = []
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(props)
        v, text = gen_value(rng, p, st["theme"]) if rng.random() < .95 else ("", "")
        decls.append({"p": p, "v": v, "text": text, "imp": rng.random() < .2})
    if not st["theme"]:
        st["n"] += 1
        decls.append({"p": "m%d" % st["n"], "v": "x", "text": "x", "imp": rng.random() < .1})
    return {"k": "rule", "sels": [gen_sel(rng, st["theme"], st["els"]) for _ in range(rng.choice([1] * 9 + [2] * 3 + [3, 3, 0]))], "decls": decls}


AT = ["font-face", "counter-style"]


def gen_items(rng, st, depth, files):
    res = []
    for _ in range(rng.randint(1, 5) if depth else rng.randint(2, 8)):
        k = rng.random()
        if k < .12 and depth < 2:
            res.append({"k": "cond", "kw": rng.choice(["media", "supports", "document"]), "q": rng.choice(QUERIES),
                        "items": gen_items(rng, st, depth + 1, [])})
        elif k < .15 and not st["theme"]:
            res.append({"k": "at", "kw": rng.choice(AT), "decls": [dict(zip(("p", "v", "text"), (p, *gen_value(rng, p, None))), imp=False)
                                                                 for p in rng.sample(PROPS, rng.randint(1, 3))]})
        elif k < .3 and files:
            res.append({"k": "import", "file": rng.choice(files), "q": rng.choice(["", "", "screen", "print"])})
        else:
            res.append(gen_rule(rng, st))
    return res


def gen_elements(rng):
    from parce.css import Element
    if rng.random() < .05:
        from parce.css import AbstractElement
        return [{"par": 0, "name": [], "attrs": [], "pcs": [], "pes": []}], [AbstractElement()], None
    n = rng.randint(2, 9)
    els, real, texts = [], [], []
    deep = rng.random() < .35       # a deep tree of elements with few different names
    names = rng.sample(NAMES, min(len(NAMES), rng.choice([2, 3, 3]))) if deep else NAMES
    if deep:
        n = rng.randint(6, 12)
    for k in range(n):
        par = 0 if k == 0 else rng.randint(max(1, k - 2), k) if rng.random() < (.4 if deep else .7) else k
        attrs = {}
        if rng.random() < .6:
            attrs["class"] = rng.choice([" ", " ", "  ", "\t", "\n "]).join(rng.sample(CLASSES, rng.randint(1, 3)))
        if rng.random() < .3:
            attrs["id"] = rng.choice(IDS)
        for _ in range(rng.choice([0, 0, 1, 2])):
            attrs[rng.choice(["t", "lang", "data-x"])] = rng.choice(VALS)
        pcs = [x for x in ("hover", "focus") if rng.random() < .3]
        pes = [x for x in PES if rng.random() < .1]
        name = rng.choice(names)
        els.append({"par": par, "name": codes(name), "attrs": [[codes(a), codes(b)] for a, b in attrs.items()],
                    "pcs": pcs, "pes": pes})
        real.append(Element(name, real[par - 1] if par else None, pcs, pes, **attrs))
        texts.append({"par": par, "name": name, "attrs": attrs, "pcs": pcs, "deep": deep})
    return els, real, texts


class Lxml:
    """An element with the interface of an element of lxml."""
    known = {}

    def __init__(self, e):
        self.e, self.tag, self.attrib = e, e.name, e.attrs
        Lxml.known[id(e)] = self

    def wrap(self, es):
        return [Lxml.known[id(e)] for e in es]

    def getparent(self):
        return None if self.e.parent is None else Lxml.known[id(self.e.parent)]

    def __len__(self):
        return len(self.e)

    def __iter__(self):
        return iter(self.wrap(self.e))

    def itersiblings(self, preceding=False):
        if self.e.parent is None:
            return iter(())
        es = list(self.e.parent)
        k = [e is self.e for e in es].index(True)
        return iter(self.wrap(es[:k][::-1] if preceding else es[k + 1:]))


def hidden(e):
    """Is there something around the element that lxml elements do not have?"""
    seen = set()
    todo = [e]
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        if e.pseudo_classes or e.pseudo_elements:
            return True
        todo += list(e) + ([e.parent] if e.parent is not None else [])
    return False


# reading results -------------------------------------------------------------

def canon(values):
    out = []
    for v in values:
        if isinstance(v, str):
            out.append(v)
        elif v.quoted:
            out.append("'" + v.text)
        elif v.number is not None:
            out.append(v.text + (v.unit or ""))
        else:
            out.append(v.text)
    return " ".join(map(str, out))


def fmt(f):
    res = []
    for p in ("color", "background-color", "caret-color", "text-decoration-color"):
        c = getattr(f, p.replace("-", "_"))
        if c is not None:
            res.append([p, ",".join(map(str, c[:3])) + ("" if c[3] == 1 else ",%g" % c[3])])
    if f.font_weight is not None:
        res.append(["font-weight", str(f.font_weight)])
    if f.font_size is not None:
        res.append(["font-size", "%s%s" % (f.font_size, f.font_size_unit or "")])
    if f.font_style is not None:
        angle = "" if f.font_style != "oblique" or f.font_style_angle is None else " %s%s" % (f.font_style_angle, f.font_style_angle_unit or "")
        res.append(["font-style", f.font_style + angle])
    for p in KEYWORDS:
        v = getattr(f, p.replace("-", "_"))
        if v is not None:
            res.append([p, "%s%%" % v if p == "font-stretch" and not isinstance(v, str) else v])
    if f.text_decoration_line:
        res.append(["text-decoration-line", ",".join(f.text_decoration_line)])
    if f.font_family:
        res.append(["font-family", ",".join(f.font_family)])
    return res


# driving ---------------------------------------------------------------------

def plain(items):
    """The items for TLC."""
    res = []
    for it in items:
        if it["k"] == "rule":
            def comp(c):
                return {"el": codes(c["el"]), "ids": [codes(x) for x in c["ids"]], "cls": [codes(x) for x in c["cls"]],
                        "attrs": [{"n": codes(a["n"]), "op": a["op"], "v": codes(a["v"]), "ci": a["ci"]} for a in c["attrs"]],
                        "pcs": c["pcs"], "pes": c["pes"]}
            res.append({"k": "rule", "sels": [{"c": [comp(c) for c in s["c"]], "ops": s["ops"]} for s in it["sels"]],
                        "decls": [{"p": d["p"], "v": d["v"], "imp": d["imp"]} for d in it["decls"]]})
        elif it["k"] == "at":
            res.append({"k": "at", "kw": it["kw"], "decls": [[d["p"], d["v"]] for d in it["decls"]]})
        elif it["k"] == "cond":
            res.append({"k": "cond", "kw": it["kw"], "q": it["q"], "items": plain(it["items"])})
        else:
            res.append(dict(it))
    return res


def put(rng, fname, text, last=False):
    """Write a sheet in some encoding."""
    data = text.encode("utf-8")
    k = rng.random()
    if k < .1:
        data = b"\xef\xbb\xbf" + data
    elif k < .2:
        data = text.encode("utf-16")
    elif k < .4:
        try:
            data = ('@charset "iso-8859-1";\n' + text).encode("latin1")
        except UnicodeError:
            pass
    os.makedirs(os.path.dirname(fname), exist_ok=True)
    with open(fname, "wb") as f:
        f.write(data)
    return data


def blank(op):
    return {"op": op, "x": 1, "filt": [], "path": [], "role": [], "pcs": [], "pes": [], "a": [], "b": [], "got": [], "exc": ""}


def guarded(rec, fn):
    try:
        with cpu_limit(8):
            rec["got"] = fn()
    except Hang:
        rec["exc"] = "Hang"
    except Exception as ex:
        rec["exc"] = where(ex)
    return rec


def sheets(job):
    seed, quick, count = job
    rng = random.Random(seed)
    top = tempfile.mkdtemp(prefix="verifcss")
    res, failed = [], 0
    try:
        for k in range(count):
            d = os.path.join(top, str(k))
            tr = one(rng, d)
            shutil.rmtree(d, ignore_errors=True)
            res.append(tr)
            failed += any(e["exc"] for e in tr["ev"])
            if failed >= 3:
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return res


def one(rng, d):
    from parce.css import StyleSheet
    from parce.theme import Theme
    import parce.action
    theme = None
    actions = []
    if rng.random() < .4:
        pool = [getattr(parce.action, n) for n in ("Comment", "String", "Number", "Name", "Keyword", "Escape", "Text")]
        pool += [parce.action.Name.Tag, parce.action.String.Escape, parce.action.Name.Function, parce.action.Name.Tag.Definition]
        actions = rng.sample(pool, 3)
        theme = sorted({c for x in actions for c in repr(x).lower().split(".")}) + ["parce", "parce", "parce", "current-line"]
    els, real, shown = gen_elements(rng)
    st = {"theme": theme, "n": 0, "els": shown}
    names = ["m", "f", "g", "h"]
    sub = rng.choice(["", "sub/", "sub/deep/"])
    path = {"m": d + "/main.css", "f": d + "/" + sub + "f.css", "g": d + "/" + rng.choice(["", "sub/", "o/"]) + "g.css",
            "h": d + "/h h.css" if rng.random() < .2 else d + "/h.css"}
    use = rng.choice([[], ["f"], ["f", "g"], ["f", "g", "h", "m"]])
    files = {"m": gen_items(rng, st, 0, use)}
    for n in use:
        if n != "m":
            files[n] = gen_items(rng, st, 1, use if rng.random() < .5 else [])
    texts = {n: items_text(rng, files[n], n, path) for n in files}
    data = {n: put(rng, path[n], texts[n]) for n in files}
    main = "m"
    spec_files = [{"name": n, "items": plain(files[n])} for n in files]
    ev = []
    how = rng.choice(["file", "file", "text", "data", "add", "noimport"])
    if how == "noimport" and theme:
        how = "file"
    hold = {}
    if theme is None:
        def load():
            if how == "file":
                s = StyleSheet.from_file(path["m"])
            elif how == "text":
                s = StyleSheet.from_text(texts["m"], path["m"])
            elif how == "data":
                s = StyleSheet.from_data(data["m"], path["m"])
            elif how == "noimport":
                load = rng.choice([lambda: StyleSheet.from_file(path["m"], allow_import=False),
                                   lambda: StyleSheet.from_text(texts["m"], path["m"], allow_import=False)])
                s = load()
            else:
                s = StyleSheet.from_file(path["m"]) + StyleSheet.from_file(path[use[0] if use else "m"])
            return s
        if how == "add":
            spec_files.append({"name": "+", "items": [{"k": "import", "file": "m", "q": ""},
                                                      {"k": "import", "file": use[0] if use else "m", "q": ""}]})
            main = "+"
        if how == "noimport":
            spec_files.append({"name": "+", "items": [it for it in plain(files["m"]) if it["k"] != "import"]})
            main = "+"
        lxml = [Lxml(e) for e in real] if type(real[0]).__name__ == "Element" else None
        for _ in range(12):
            rec = blank("select")
            rec["x"] = max(rng.randint(1, len(els)), rng.randint(1, len(els))) if rng.random() < .5 else rng.randint(1, len(els))
            rec["filt"] = [{"kw": rng.choice(["media", "import", "supports", "document"]),
                            "allow": [q for q in QUERIES if rng.random() < .5]} for _ in range(rng.choice([0, 0, 1, 2]))]
            def fn():
                if "s" not in hold:
                    hold["s"] = load()
                s = hold["s"]
                for f in rec["filt"]:
                    s = s.filter_conditions(f["kw"], lambda r: r.node[0].text in f["allow"])
                e = real[rec["x"] - 1]
                if lxml and not e.pseudo_classes and not e.pseudo_elements and not hidden(e) and rng.random() < .5:
                    style = s.style.select_lxml_element(lxml[rec["x"] - 1])
                else:
                    style = s.style.select_element(e)
                return [[p, canon(v)] for p, v in style.properties().items()]
            ev.append(guarded(rec, fn))
        rec = blank("at")
        rec["path"] = [k for k in AT if rng.random() < .7]
        def fn():
            return [[r.keyword, [[p, canon(v)] for p, v in r.block.items()]] for r in hold["s"].at.select(*rec["path"]).rules]
        if "s" in hold:
            ev.append(guarded(rec, fn))
            rec = blank("names")
            def fn():
                return sorted({n for f in hold["s"].filenames() for n in path if os.path.normpath(f) == os.path.normpath(path[n])})
            ev.append(guarded(rec, fn))
    else:
        def load():
            if how == "file":
                return Theme(path["m"])
            if how == "add":
                return Theme(path["m"], path[use[0] if use else "m"])
            if how == "text":
                return Theme(stylesheet=texts["m"], basename=path["m"])
            return Theme(path[use[0] if use else "m"], stylesheet=texts["m"], basename=path["m"])
        two = {"file": ["m"], "text": ["m"], "add": ["m", use[0] if use else "m"], "data": [use[0] if use else "m", "m"]}[how]
        spec_files.append({"name": "+", "items": [{"k": "import", "file": n, "q": ""} for n in two]})
        main = "+"
        fs = []
        def get():
            if "t" not in hold:
                hold["t"] = load()
            return hold["t"]
        for a in actions + [actions[0]]:
            rec = blank("theme")
            rec["path"] = [codes(x) for x in repr(a).split(".")]
            def fn():
                f = get().textformat(a)
                fs.append(f)
                return fmt(f)
            ev.append(guarded(rec, fn))
        for _ in range(3):
            rec = blank("theme")
            role = rng.choice(["window", "selection", "current-line", "comment"])
            state = rng.choice(["default", "focus", "disabled"])
            rec["role"] = [] if role in ("window", "selection") else codes(role)
            rec["pes"] = ["selection"] if role == "selection" else []
            rec["pcs"] = [] if state == "default" else [state]
            def fn():
                f = get().baseformat(role, state)
                fs.append(f)
                return fmt(f)
            ev.append(guarded(rec, fn))
        for _ in range(3):
            prop, text, want = gen_short(rng)
            if text:
                rec = blank("short")
                rec["a"], rec["b"] = want, [[prop, text]]
                def fn():
                    from parce.theme import TextFormat
                    sheet = StyleSheet.from_text("x {%s%s:%s%s%s}" % (ws(rng), prop, ws(rng), text, rng.choice([";", "", " ;"])))
                    return fmt(TextFormat(sheet.style.properties()))
                ev.append(guarded(rec, fn))
        for _ in range(2 if fs else 0):
            rec = blank("same")
            f, g = rng.choice(fs), rng.choice(fs)
            rec["a"], rec["b"] = fmt(f), fmt(g)
            def fn():
                yes = lambda x: [["yes", ""]] if x else []
                assert (f == g) != (f != g) and f == f and f + g == f + g and bool(f) in (True, False)
                assert not (f - f) and not type(f)({})
                return ([["eq", ""]] if f == g or f - g == g - f == type(f)({}) else []) + ([["true", ""]] if f else [])
            ev.append(guarded(rec, fn))
        if len(fs) > 1:
            for op in ("add", "add", "add", "add", "add", "sub", "sub", "write", "write"):
                f, g = rng.choice(fs), rng.choice(fs)
                rec = blank(op)
                rec["a"], rec["b"] = fmt(f), fmt(g)
                def fn():
                    if op == "add":
                        r = fmt(f + g)
                    elif op == "sub":
                        r = fmt(f - g)
                    else:
                        css = "x {" + ";".join("%s: %s" % x for x in f.css_properties().items()) + "}"
                        r = fmt(type(f)(StyleSheet.from_text(css).style.properties()))
                    assert fmt(f) == rec["a"] and fmt(g) == rec["b"], "operands changed"
                    return r
                ev.append(guarded(rec, fn))
    return {"files": spec_files, "main": main, "els": els, "ev": ev,
            "case": {"texts": texts, "paths": path, "how": how, "elements": [repr(x) for x in real]}}
