from vlib import doccheck
LEVEL = "model_checking"
RULE = ("TLC explores every history of edits, batches, undo, redo and modified changes of the "
        "document model within the bounds; then random histories and every small batch followed "
        "by undo/redo are run on the real documents and judged by the same Step operator.")
W = {"set": 8, "seti": 1, "settext": .6, "enter": 1.5, "exit": 2.5, "cancel": .3,
     "undo": 6, "redo": 4, "setmod": 1.5, "clear": .3}


def run(ctx):
    inv = "InverseOk UndoRedoOk UniqueClean"
    doccheck.run(ctx, ["Document", "WorkerDocument"], W,
                 ["Text", "Modified", "CanUndo", "Note_modification_changed",
                  "Note_undo_available", "Note_redo_available"],
                 ctx.n((3, 3, 2, inv), (3, 4, 2, inv)),
                 3000, 24,
                 [("ab", 2, (), 4)] if ctx.quick else [("abc", 2, (), 8), ("a", 3, (), 8)])
