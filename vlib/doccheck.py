"""Common body of the document checks (C06, C07, C08, C10)."""
import random

from . import docdrive

MODEL_CFG = """CONSTANTS
  Alpha = {97, 98}
  MaxLen = %d
  MaxOps = %d
  MaxDepth = %d
SPECIFICATION Spec
INVARIANTS %s
"""


def classes(names):
    import parce
    import parce.document
    import parce.mutablestring
    return [{"MutableString": parce.mutablestring.MutableString,
             "Document": parce.document.Document,
             "WorkerDocument": worker_document}[n] for n in names]


def worker_document(text):
    """parce's own Document, with a language and a worker in the foreground."""
    import parce
    from parce.lang.json import Json
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    return parce.Document(Json.root, text, worker=Worker(TreeBuilder(Json.root)))


def histories(job):
    seed, quick, names, weights, count, nops = job
    rng = random.Random(seed)
    cls = classes(names)
    return [docdrive.random_history(rng, rng.choice(cls), nops, weights) for _ in range(count)]


def batches(job):
    seed, quick, names, text, n, cursors, part, parts = job
    res = []
    for c in classes(names):
        for i, tr in enumerate(docdrive.small_batches(c, text, n, cursors=cursors)):
            if i % parts == part:
                res.append(tr)
    return res


def run(ctx, names, weights, clauses, model, count, nops, small, rounds=12):
    ctx.model("MCDoc", MODEL_CFG % model)
    for r in ctx.rounds(rounds):
        _round(ctx, names, weights, clauses, count, nops, small if r == 0 else ())


def _round(ctx, names, weights, clauses, count, nops, small):
    jobs = 8
    traces = ctx.collect(histories, jobs, (names, weights, count // jobs, nops))
    traces += ctx.collect(histories, jobs, (names, weights, 3, 150))
    for text, n, cursors, parts in small:
        js = [(0, ctx.quick, names, text, n, cursors, p, parts) for p in range(parts)]
        for r in ctx.drive(batches, js):
            if not isinstance(r, list):
                if r.why.startswith("driver error"):
                    from .core import MachineryError
                    raise MachineryError(r.why)
                ctx.violation("Terminates", r.why)
            else:
                traces.extend(r)
    cases = [t.pop("case") for t in traces]
    ctx.sample({"case": cases[0], "events": [e["op"] for e in traces[0]["ev"]]})
    ctx.validate("DocTrace", {"clauses": clauses, "traces": traces}, cases,
                 "histories of %s" % "/".join(names))
