"""Indenting documents: an abstract indenter with a plain notation, and the indenters of bundled languages."""
import random

from .core import codes, cpu_limit, Hang, where

LINES = ["", "", " ", "a", "b", "{", "}", "{ {", "} {", "} }", "a } {", "a }", "b }", "{ b }", "a } } {", "{ { }", "!", "! {", "! }",
         "$ a", "p a", "p {", "q", "q }", "a { =", "{ = {", "b { { =", "^ {", "a\t", "x  ", "{ =", "\x0b{", "a$ ", "} !", "^ !", "! ^ {", "a { = =", "{ = b =", "{ { = } ="]
CSS = ["h1 {", "}", "color: red;", "h2 { a: b; }", "/* { */", "/* a", "b } */", "} p {", "@media print {", "a { } }", "", "  ", "a:b }",
       'c: "{";', "} }", ".x {{", "e\t "]
LY = ["{", "}", "c d e", "<< {", "} >>", "\\relative {", "a = { {", "} {", "% {", "%{ a", "b %}", "c } }", "", "  ", "\"{\"", "<c e>",
      "} \\\\ {", "#(a", " b)", ">>", "(", ") {", "\\markup {", "d } {", "{ #(a) {", "} #f {", "{ #'(b) }", "<< #t {"]
HTML = ["<style>", "h1 {", "a: b;", "}", "</style>", "<p>", "{ }", "", "<p style=\"a: b\">", "</p>", "<!-- {", "-->", "<style> h1 {", "a } </style><p>", "<style>h2 { </style> { <style> } {", "</style><style>}"]
KINDS = {"css": ("parce.lang.css.Css.root", CSS), "ly": ("parce.lang.lilypond.LilyPond.root", LY), "html": ("parce.lang.html.Html.root", HTML)}


JSON = ["{", "}", "[", "]", '"a": 1,', '"{": 2', "{ {", "} }", '"b": {', "", " ", "} , {"]
KINDS.update({"sub": ("", CSS), "json": ("parce.lang.json.Json.root", JSON), "added": ("parce.lang.json.Json.root", JSON)})


def indent(rng):
    return rng.choice(["", "", " ", "  ", "  ", "   ", "    ", "\t", " \t"])


def document(rng, lines):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
    return "\n".join(indent(rng) + rng.choice(lines) for _ in range(n))


def tokens(d, added):
    from parce.action import Delimiter, Bracket
    r = []
    for t in d.get_root(True).tokens():
        lang = t.parent.lexicon.language.__name__
        lang = {"Css": "css", "LilyPond": "ly", "SubCss": "css", "Json": "css" if added else "x"}.get(lang, "x")
        kind = "other"
        if lang == "css" and t.action is Bracket:  # (Json, too)
            kind = {"{": "open", "}": "close"}.get(t.text, "other")
        elif lang == "ly" and t.action in Delimiter:
            kind = {"{": "open", "<<": "open", "}": "close", ">>": "close"}.get(t.text, "other")
        r.append({"p": t.pos, "e": t.end, "kind": kind, "lang": lang})
    return r


def histories(job):
    seed, quick, count, nops = job
    rng = random.Random(seed)
    import parce
    from parce import indent as ind
    from parce.document import Document, Cursor
    from .iodrive import import_lexicon

    from parce.lang.css import Css, CssIndent
    added = False

    class SubCss(Css):
        pass

    class Plain(ind.AbstractIndenter):
        marks = False

        def indent_events(self, block, prev_indents=()):
            s = block.text()
            lead = len(s) - len(s.lstrip())
            if self.marks and lead == len(s):
                yield ind.BLANK
            for k, c in enumerate(s, 1):
                e = {"{": ind.INDENT, "}": ind.DEDENT, "!": ind.NO_INDENT, "$": ind.NO_STRIP, "a": ind.NO_DEDENT,
                     "p": (ind.PREFER_INDENT, "   "), "q": (ind.PREFER_INDENT, ""), "=": (ind.ALIGN, " " * (k - lead)),
                     "^": (ind.CURRENT_INDENT, s[:lead])}.get(c)
                if e is not None:
                    yield e

    res, failed = [], 0
    for _ in range(count):
        kind = rng.choice(["plain"] * 3 + ["blank"] * 3 + ["css", "css", "ly", "ly", "html", "sub", "json", "added"])
        if kind in KINDS:
            lex, lines = KINDS[kind]
            text = document(rng, lines)
            d = parce.Document(SubCss.root if kind == "sub" else import_lexicon(lex), text)
            it = ind.Indenter()
            added = kind == "added"
            if added:
                it.add_indent(import_lexicon(lex).language, CssIndent())
        else:
            text = document(rng, LINES)
            d = Document(text)
            it = Plain()
            it.marks = kind == "blank"
        ev = []
        changed = False
        for _ in range(rng.randint(1, nops)):
            op = rng.choice(["indent"] * 4 + ["auto"] * 4 + ["inc", "dec", "strip", "edit"] + ["undo"] * 2)
            if op == "undo" and not changed:
                op = "auto"
            n = len(d)
            p = rng.randint(0, n)
            if rng.random() < .5:
                p = d.text().rfind("\n", 0, p) + 1
            e = rng.choice([None, n, p, rng.randint(p, n)])
            if op == "indent" and rng.random() < .4:
                p, e = 0, None
            it.indent_string = rng.choice(["  ", "  ", "    ", "\t", " "])
            it.indent_blank_lines = rng.random() < .6
            chars = rng.choice(["", "", " ", " \t", "x "])
            rec = {"op": op, "p": p, "e": -1 if e is None else e, "std": codes(it.indent_string), "blanks": it.indent_blank_lines,
                   "chars": codes(chars), "toks": [], "text": [], "exc": ""}
            before = d.text()
            try:
                with cpu_limit(6):
                    if kind in KINDS and op in ("indent", "auto", "inc", "dec", "strip"):
                        rec["toks"] = tokens(d, added)
                    c = Cursor(d, p, e)
                    if op == "indent":
                        it.indent(c)
                    elif op == "auto":
                        it.auto_indent(c)
                    elif op == "inc":
                        it.increase_indent(c)
                    elif op == "dec":
                        it.decrease_indent(c)
                    elif op == "strip":
                        it.strip_trailing_blanks(c, *([chars] if chars else []))
                    elif op == "undo":
                        d.undo()
                    else:
                        d[p:rng.randint(p, n)] = document(rng, KINDS[kind][1] if kind in KINDS else LINES)
            except Hang:
                rec["exc"] = "Hang"
            except Exception as ex:
                rec["exc"] = where(ex)
            rec["text"] = codes(d.text())
            changed = d.text() != before and op != "undo"
            ev.append(rec)
            if rec["exc"]:
                failed += 1
                break
        res.append({"start": codes(text), "kind": "tok" if kind in KINDS else kind, "ev": ev,
                    "case": {"kind": kind, "text": text, "ops": [{k: v for k, v in e.items() if k not in ("toks", "text")} for e in ev]}})
        if failed > 3:
            break
    return res
