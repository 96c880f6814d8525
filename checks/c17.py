from vlib import htmldrive
LEVEL = "model_checking"
RULE = ("Html.tla is a reader of HTML as a state machine. TLC checks that it gets back exactly the characters and attributes of an "
        "escaping writer (MCHtml). The HTML the real formatters produce for ranges of documents in bundled languages, with "
        "themes whose values contain all special characters, is read piece by piece: it must be well-formed, show exactly the "
        "text of the range, and every character must be in an element with the format Formats.tla gives it.")
CFG = """CONSTANTS
  MaxLen = %d
INIT Init
NEXT Next
INVARIANTS WellFormed Same
"""


def run(ctx):
    ctx.model("MCHtml", CFG % ctx.n(2, 4))
    for _ in ctx.rounds(30, 2):
        docs, traces = [], []
        for x in ctx.collect(htmldrive.pages, 8, (ctx.n(18, 40), 6, 90)):
            for t in x["traces"]:
                t["doc"] += len(docs)
            docs += x["docs"]
            traces += x["traces"]
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0]})
        ctx.validate("HtmlTrace", {"traces": traces, "docs": docs}, cases, "pages")
