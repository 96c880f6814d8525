from vlib import indentdrive
LEVEL = "model_checking"
RULE = ("Indent.tla defines the indent every line gets from the indent events of the lines before it, for indenting ranges, "
        "auto-indenting one line, increasing, decreasing and stripping. TLC checks on all small documents that only leading "
        "whitespace changes, that indenting again changes nothing, that decreasing undoes increasing and that auto-indent agrees "
        "(MCIndent). Random histories of the real indenters (abstract with a plain notation; css, lilypond, html) must give the "
        "texts the specification computes.")
CFG = """CONSTANTS
  MaxLines = %d
INIT Init
NEXT Next
INVARIANTS OnlyIndents Again Restored AutoAgrees
"""


def run(ctx):
    ctx.model("MCIndent", CFG % ctx.n(3, 4))
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(indentdrive.histories, 8, (ctx.n(220, 400), 8))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0]})
        ctx.validate("IndentTrace", {"traces": traces}, cases, "documents")
