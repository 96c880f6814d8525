"""Common body of the tree checks (C01, C04, C10)."""
from . import lexdrive, treedrive


def gather(ctx, count, nsteps, maxlen, excount, exsteps, exsize, weights, kinds=("builder", "document", "document"), more=8):
    traces = ctx.collect(treedrive.generated, 8, (count // 8, nsteps, maxlen, kinds, weights, more))
    for t in traces:
        t["langs"] = True
    data, cases = lexdrive.pack(traces)
    ex = ctx.collect(treedrive.examples, 8, (None, excount // 8, exsteps, exsize, kinds, weights, more))
    for t in ex:
        t["lang"] = 0
        cases.append(t.pop("case"))
    data["traces"] += ex
    ctx.sample({"case": {k: v for k, v in cases[0].items() if k != "lang"}})
    if ex:
        ctx.sample({"case": cases[-1]})
    return data, cases


def run(ctx, clauses, *args, **kw):
    for _ in ctx.rounds(kw.pop("rounds", 20)):
        data, cases = gather(ctx, *args, **kw)
        data["clauses"] = clauses
        ctx.validate("TreeTrace", data, cases, "edit histories")
