from vlib import utildrive
LEVEL = "model_checking"
RULE = ("Random class hierarchies with dispatchers, defaults, overridden methods and multiple inheritance; switches of "
        "instances and classes that are entered and left; streams of ranges and lists. TLC compares every call and result "
        "with Helpers.tla.")


def run(ctx):
    for _ in ctx.rounds(30, 3):
        traces = ctx.collect(utildrive.histories, 8, (ctx.n(100, 200), 40))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"classes": cases[0]["classes"][:2], "ev": traces[0]["ev"][:2]})
        ctx.validate("HelperTrace", {"traces": traces}, cases, "helpers")
