from vlib import navdrive
LEVEL = "model_checking"
RULE = ("Nav.tla defines every navigation and search operation on the list of nodes in document order; TLC checks its laws on "
        "all small trees (MCNav). Then real trees of random languages and texts are asked random questions (all operations, "
        "also with positions outside of the text); TLC compares every answer.")
CFG = """CONSTANTS
  MaxNodes = %d
INIT Init
NEXT Next
INVARIANT Laws
"""


def run(ctx):
    ctx.model("MCNav", CFG % ctx.n(5, 6), timeout=1200)
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(navdrive.questions, 8, (ctx.n(150, 250), 70, 60))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"text": cases[0]["text"], "questions": traces[0]["ev"][:4]})
        ctx.validate("NavTrace", {"traces": traces}, cases, "questions")
