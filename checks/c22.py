from vlib import iodrive
LEVEL = "model_checking"
RULE = ("DocIO.tla defines the encodings, byte-order marks, newline styles and which encoding is used. TLC explores saving and "
        "loading of all short texts in all encodings and checks that the text comes back (MCDocIO). Random histories of real "
        "documents that are created, edited, saved and loaded (files with and without marks, mentioned, specified and default "
        "encodings, unencodable text) are then judged: text, remembered encoding, modified state and bytes in the file.")
CFG = """CONSTANTS
  MaxLen = %d
  MaxSteps = %d
INIT Init
NEXT Next
INVARIANTS RoundTrip NoMark Inverse
"""


def run(ctx):
    ctx.model("MCDocIO", CFG % ctx.n((2, 2), (3, 3)))
    for _ in ctx.rounds(30):
        traces = ctx.collect(iodrive.histories, 8, (ctx.n(220, 300), 14))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0]})
        ctx.validate("DocIOTrace", {"traces": traces}, cases, "documents")
