import random

from vlib import doccheck, docdrive
LEVEL = "model_checking"
RULE = ("DocSearch.tla extends the document model with replace, re_sub, translate and trim: the changes are found in the plain "
        "region and made as one edit. Random histories of the real document with these operations (regions, counts, regular "
        "expressions with groups, lookahead and empty matches, callables and templates, also inside edit contexts, with cursors "
        "and undo) are judged by the same Step operator as the other edits.")
W = {"replace": 6, "re_sub": 8, "translate": 5, "trim": 4, "set": 3, "settext": 3, "enter": 1, "exit": 1.5,
     "undo": 1.5, "redo": .8, "cursor": 1}
CLAUSES = ["Text", "Revision", "CanUndo", "Cursors", "Mirror", "Note_text_change", "Note_undo_available", "Note_redo_available"]


def histories(job):
    seed, quick, count, nops = job
    rng = random.Random(seed)
    cls = doccheck.classes(["Document", "WorkerDocument"])
    return [docdrive.random_history(rng, rng.choice(cls), nops, W, rng.choice([6, 14, 24]),
                                    rng.choice(["ab\nc  é", "aab \t\t \n", "abAB c\n", "a.b_ b"])) for _ in range(count)]


def run(ctx):
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(histories, 8, (ctx.n(250, 400), 16))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0], "events": [e["op"] for e in traces[0]["ev"]]})
        ctx.validate("DocTrace", {"clauses": CLAUSES, "traces": traces}, cases, "search and replace")
