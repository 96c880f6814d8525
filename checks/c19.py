from vlib import uniqdrive
LEVEL = "model_checking"
RULE = ("MCUnique: threads that look up, lock, make, name and publish objects, and use a lock per object; all interleavings, "
        "safety and liveness. Real threads ask for actions, symbols, lexicons, derived lexicons and cached values, and hold "
        "object locks, under a scheduler that switches threads between any two lines of parce code (a switch at every line, "
        "and random combinations); Unique.tla judges what every thread made and got.")
CFG = """CONSTANTS
  Threads = {1, 2, 3}
  Keys = {%s}
  Rounds = %d
SPECIFICATION Spec
INVARIANTS One Once Usable Mutex Cleaned
"""


def run(ctx):
    ctx.model("MCUnique", CFG % ctx.n(("1, 2", 1), ("1, 2", 2)), timeout=800)
    ctx.model("MCUnique", CFG.replace("{1, 2, 3}", "{1, 2}") % ctx.n(("1, 2", 2), ("1, 2", 3)) + "PROPERTY Finish\n", timeout=800, tag="MCUniqueLive")
    for _ in ctx.rounds(30):
        traces = ctx.collect(uniqdrive.threads, 8, (ctx.n(9, 30), ctx.n(60, 120)))
        traces += ctx.collect(uniqdrive.histories, 1, (60,))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0]})
        ctx.validate("UniqueTrace", {"traces": traces}, cases, "threads")
