from vlib import blockdrive
LEVEL = "model_checking"
RULE = ("Blocks.tla defines the blocks of a text, navigation between them and the cursor movements; TLC checks its laws for all "
        "texts up to a length (MCBlocks). Then real documents with random texts, separators and edits are asked about blocks "
        "from all sides and cursors are moved; TLC compares every answer.")
CFG = """CONSTANTS
  MaxLen = %d
  Sep <- %s
INIT Init
NEXT Next
INVARIANT Laws
"""


def run(ctx):
    ctx.model("MCBlocks", CFG % (ctx.n(5, 8), "Sep1"), tag="newline")
    ctx.model("MCBlocks", CFG % (ctx.n(5, 8), "Sep2"), tag="two characters")
    for _ in ctx.rounds(30, 3):
        traces = ctx.collect(blockdrive.questions, 8, (ctx.n(150, 250), 60, 24))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0], "questions": traces[0]["ev"][:4]})
        ctx.validate("BlockTrace", {"traces": traces}, cases, "blocks")
