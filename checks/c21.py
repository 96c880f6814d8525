from vlib import regdrive
LEVEL = "model_checking"
RULE = ("Registry.tla says which entries a name, file name, mime type and contents select, with what weight, and what adding, "
        "inheriting, copying and falling back do; TLC explores all small histories (MCRegistry). Random histories on several connected registries of the real code are judged "
        "step by step, and every name, pattern and type of the bundled registry is looked up (and the lexicon loaded).")

CFG = """CONSTANTS
  MaxOps = %d
  MaxRegs = 2
INIT Init
NEXT Next
INVARIANTS UniqueKeys Complete FoundOk
PROPERTY Others
"""


def run(ctx):
    ctx.model("MCRegistry", CFG % ctx.n(2, 3), timeout=1200)
    for r in ctx.rounds(30, 3):
        traces = ctx.collect(regdrive.histories, 8, (ctx.n(60, 120), 30))
        if r == 0:
            traces += ctx.collect(regdrive.bundled, 1)
        cases = [t.pop("case") for t in traces]
        ctx.sample({"case": cases[0]})
        ctx.validate("RegistryTrace", {"traces": traces}, cases, "registries")
