from vlib import cssdrive
LEVEL = "model_checking"
RULE = ("Css.tla defines loading (imports, conditions), matching of selectors on element trees, specificity and the cascade. TLC "
        "explores growing sheets and checks that the cascade is total and equals applying rules one by one (MCCss). Random "
        "sheets over several files are rendered as text in varied notation, loaded by the real code, filtered, and queried for "
        "elements and for actions of a theme; every resulting dictionary must be the one the specification computes.")
CFG = """CONSTANTS
  MaxRules = %d
INIT Init
NEXT Next
INVARIANTS OneWinner Folded Stable
"""


def run(ctx):
    ctx.model("MCCss", CFG % ctx.n(3, 4))
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(cssdrive.sheets, 8, (ctx.n(110, 250),))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0], "events": traces[0]["ev"][:2]})
        ctx.validate("CssTrace", {"traces": traces}, cases, "sheets")
