from vlib import validrive
LEVEL = "model_checking"
RULE = ("Validate.tla: errors and warnings of a language definition, from the rules and from following default targets. TLC "
        "explores all languages of two or three lexicons with default targets from all stacks (MCValidate): what is accepted cannot run "
        "away. Then real languages, good and bad, with inheritance, are validated, inspected and (if accepted) lexed.")
CFG = """CONSTANTS
  N = %d
  Depth = %d
INIT Init
NEXT Next
INVARIANTS Bounded
"""


def run(ctx):
    ctx.model("MCValidate", CFG % (ctx.n(2, 3), 3))
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(validrive.histories, 8, (ctx.n(150, 300),))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"classes": cases[0]["classes"][:1], "ev": traces[0]["ev"][:2]})
        ctx.validate("ValidateTrace", {"traces": traces}, cases, "validation")
