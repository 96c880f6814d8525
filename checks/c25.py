from vlib import actiondrive
LEVEL = "model_checking"
RULE = ("Actions.tla: an action is its path, created on demand. TLC explores all orders of creation within the bounds and checks "
        "uniqueness and the laws of containment and common ancestors (MCActions). Then random histories of creating, "
        "comparing, copying and combining real standard actions (also the predefined ones) are judged step by step.")
CFG = """CONSTANTS
  Names = {"A", "B"}
  Depth = 3
  MaxObjects = %d
INIT Init
NEXT Next
INVARIANTS Unique Order
"""


def run(ctx):
    ctx.model("MCActions", CFG % ctx.n(5, 6))
    for _ in ctx.rounds(30, 3):
        traces = ctx.collect(actiondrive.histories, 8, (ctx.n(120, 250), 60))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0], "events": traces[0]["ev"][:3]})
        ctx.validate("ActionTrace", {"traces": traces}, cases, "actions")
