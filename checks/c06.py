from vlib import doccheck
LEVEL = "model_checking"
RULE = ("TLC explores every history of the document model within the bounds; then random "
        "histories and every batch of at most 2-3 changes on small texts are run on the "
        "real string/document classes and judged by the same Step operator (DocTrace). A "
        "trace is non-trivial: it contains edits, edit contexts, reads and failing calls.")
W = {"set": 10, "seti": 2, "get": 3, "geti": 1, "settext": 1, "enter": 3, "exit": 4, "cancel": .7}


def run(ctx):
    doccheck.run(ctx, ["MutableString", "Document", "WorkerDocument"], W,
                 ["Text", "Read", "Revision0"],
                 ctx.n((3, 3, 2, "MirrorOk InverseOk AtomicOk"), (3, 4, 2, "MirrorOk InverseOk AtomicOk")),
                 4000, 16,
                 [("ab", 2, (), 4), ("", 3, (), 1)] if ctx.quick else [("abc", 2, (), 8), ("a", 3, (), 8), ("ab", 2, (), 2)])
