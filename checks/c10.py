from vlib import doccheck, lexdrive, treecheck, treedrive
LEVEL = "model_checking"
RULE = ("Histories of edits, batches, undo and redo: TLC replays them on Doc.tla, which derives the one notification "
        "per effective change, and checks the observer's mirror of the text; and edit histories with trees: TLC checks "
        "that the reported updated range lies in the text and that the tokens outside it are the old ones, also when changes arrive during a build.")
W = {"set": 10, "seti": 2, "settext": 1, "enter": 3, "exit": 4, "cancel": .7, "undo": 3, "redo": 2}


def run(ctx):
    doccheck.run(ctx, ["Document", "WorkerDocument"], W, ["Mirror", "Revision", "Note_text_change"],
                 ctx.n((3, 3, 1, "MirrorOk InverseOk AtomicOk"), (3, 4, 2, "MirrorOk InverseOk AtomicOk")),
                 1600, 16, [("ab", 2, (), 2)], rounds=6)
    treecheck.run(ctx, ["Range", "Peek"], 700, 8, 30, 100, 10, 150, {"root": .06})
    for _ in ctx.rounds(10):
        traces = ctx.collect(treedrive.midbuild, 8, (50, 7, 40, .06, 8))
        data, cases = lexdrive.pack(traces)
        data["clauses"] = ["RangeUpd"]
        ctx.validate("TreeTrace", data, cases, "builds with changes arriving midway")
