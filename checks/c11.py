from vlib import lexdrive, workdrive
LEVEL = "model_checking"
RULE = ("TLC explores the design model of the background worker (MCWorker: main thread and worker thread, all "
        "interleavings of changes, transformer changes, requests, callbacks and stages; safety and liveness). Then real "
        "workers and documents are driven, foreground with reentrant handlers, background with the thread stopped at gates "
        "or running freely; TLC judges every tree, callback and event against the history of texts.")
CFG = """CONSTANTS
  MaxOps = %d
  Transformers = {1, 2}
SPECIFICATION Spec
INVARIANTS TreeOk XformOk OnceOk
PROPERTIES Settles CalledOk
"""


def run(ctx):
    ctx.model("MCWorker", CFG % ctx.n(5, 7), timeout=1200)
    for _ in ctx.rounds(30):
        workdrive.check(ctx, ["Tree"], ctx.n(40, 60), .3)
