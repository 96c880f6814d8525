from vlib import querydrive
LEVEL = "model_checking"
RULE = ("Queries.tla gives every query step its meaning on the list of nodes in document order (Nav.tla); TLC checks laws of "
        "selecting, inverting and deleting on all small trees (MCQueries). Random chains of "
        "steps are applied to real trees of random languages and texts; TLC compares what is selected, by iterating, "
        "counting, picking etc., that the tree is left alone, and what remains when the selection is deleted.")

CFG = """CONSTANTS
  MaxNodes = %d
INIT Init
NEXT Next
INVARIANT Laws
"""


def run(ctx):
    ctx.model("MCQueries", CFG % ctx.n(5, 6), timeout=1200)
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(querydrive.queries, 8, (ctx.n(80, 120), 30, 24))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"text": cases[0]["text"], "query": traces[0]["ev"][0]["steps"]})
        ctx.validate("QueryTrace", {"traces": traces}, cases, "queries")
