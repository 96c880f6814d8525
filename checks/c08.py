from vlib import doccheck
LEVEL = "model_checking"
RULE = ("TLC explores every history of the document model with cursors within the bounds; then "
        "random histories with up to 5 cursors, and every small batch with all cursors on a text, are "
        "run on the real documents and judged by the same Step operator.")
W = {"set": 10, "seti": 1, "settext": .5, "enter": 2.5, "exit": 3.5, "cancel": .3,
     "undo": 2, "redo": 1.5, "cursor": 3, "setcur": 2}


def run(ctx):
    inv = "CursorsOk MirrorOk"
    def cur(n):
        return [(p, e) for p in range(n + 1) for e in range(p, n + 1)] + [(p, None) for p in range(n + 1)]
    doccheck.run(ctx, ["Document", "WorkerDocument"], W, ["Cursors"],
                 ctx.n((3, 3, 2, inv), (3, 4, 2, inv)),
                 3000, 24,
                 [("ab", 2, cur(2), 4)] if ctx.quick else [("abc", 2, cur(3), 8), ("a", 3, cur(1), 8)])
