from vlib import lexdrive, treedrive
LEVEL = "model_checking"
RULE = ("TLC explores the builder design model (MCBuilder): text changes arriving between any two steps of a build, "
        "also causing restarts, with merging, tail reuse and updated range. Then real TreeBuilders are driven with "
        "changes injected at every stage, in event handlers and while the lexer is reading (a rule action calls the "
        "injector); TLC compares the tree, open lexicons and reported range at the end, and the tree at every "
        "'finished' event, with those of the text and root lexicon known at that moment.")
CFG = """CONSTANTS
  Alpha = {97, 98}
  MaxLen = %d
  MaxEdits = %d
  Back = %d
SPECIFICATION Spec
INVARIANTS UpToDate Installed CoversOk RangeOk
PROPERTIES Settles
"""


def run(ctx):
    ctx.model("MCBuilder", CFG % ctx.n((3, 2, 1), (4, 2, 1)), timeout=1200)
    if not ctx.quick:
        ctx.model("MCBuilder", CFG % (2, 3, 0), timeout=1200, tag="MCBuilder-3edits")
    for _ in ctx.rounds(20):
        traces = ctx.collect(treedrive.midbuild, 8, (150, 7, 40, .06, 8))
        data, cases = lexdrive.pack(traces)
        data["clauses"] = ["Tree", "Open", "Root", "WellFormed", "Parents", "RangeUpd", "Finished"]
        ctx.sample({"case": {k: v for k, v in cases[0].items() if k != "lang"}})
        ctx.validate("TreeTrace", data, cases, "builds with changes arriving midway")
        traces = ctx.collect(treedrive.combined, 8, (ctx.n(150, 300), 6))
        cases = [t.pop("case") for t in traces]
        ctx.validate("ChangesTrace", {"traces": traces}, cases, "combined changes")
