from vlib import eventdrive
LEVEL = "model_checking"
RULE = ("TLC explores MCEvents: all histories of connecting, disconnecting and (nested) emitting by handlers within small "
        "constants. Then a real Observable is driven with functions and (weakly held) methods that act while being called; "
        "TLC judges which handler is called when, with which arguments, and the contexts entered and exited.")
CFG = """CONSTANTS
  Handlers = {1, 2, 3}
  MaxOps = %d
  MaxDepth = 2
SPECIFICATION Spec
INVARIANTS OrderOk OnceOk UniqueOk
PROPERTIES Ends
"""


def run(ctx):
    ctx.model("MCEvents", CFG % ctx.n(4, 5), timeout=1200)
    for _ in ctx.rounds(30, 3):
        traces = ctx.collect(eventdrive.histories, 8, (ctx.n(200, 300), 25))
        cases = [t.pop("case") for t in traces]
        ctx.sample(cases[0])
        ctx.validate("EventTrace", {"traces": traces}, cases, "histories of an observable")
