from vlib import lexdrive, workdrive, xformdrive
LEVEL = "model_checking"
RULE = ("MCWorker (see C11) also models the transform stages. Real workers and documents are driven as in C11 with "
        "transformers being changed; every transformed result that is delivered must be the one Transforms.tla gives for "
        "the tree of the current text and the methods of the current transformer.")
CFG = """CONSTANTS
  MaxOps = %d
  Transformers = {1, 2}
SPECIFICATION Spec
INVARIANTS XformOk OnceOk
PROPERTIES Settles
"""


def run(ctx):
    ctx.model("MCWorker", CFG % ctx.n(5, 7), timeout=1200)
    for _ in ctx.rounds(30):
        workdrive.check(ctx, ["Xform"], ctx.n(70, 80), .75)
        traces = ctx.collect(xformdrive.connected, 8, (ctx.n(40, 80), 12, 20))
        data, cases = lexdrive.pack(traces)
        ctx.validate("ConnectTrace", data, cases, "connected transformers")
