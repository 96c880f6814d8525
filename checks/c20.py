from vlib import worddrive
LEVEL = "model_checking"
RULE = ("Words.tla says what the generated expressions must match: exactly the words, the longest one at a position; exactly the "
        "characters; a recognised fixed string. The real expressions are run on all short subjects for every small set of words, "
        "and on mutated subjects for random sets with special characters, prefixes and suffixes; expressions of known meaning go "
        "through to_string and through one-rule lexicons with several flags. TLC compares every result.")


def run(ctx):
    for r in ctx.rounds(30, 2):
        traces = ctx.collect(worddrive.random_words, 8, (ctx.n(60, 120),))
        if r == 0:
            maxw, size = ctx.n((3, 3), (3, 4))
            for x in ctx.drive(worddrive.small, [(0, ctx.quick, p, 8, maxw, size) for p in range(8)]):
                if isinstance(x, list):
                    traces += x
                else:
                    ctx.violation("Terminates", x.why)
        cases = [t.pop("case") for t in traces]
        for t in traces:
            for e in t["ev"]:
                del e["expr"]
        ctx.sample(traces[0]["ev"][0])
        ctx.validate("WordTrace", {"traces": traces}, cases, "expressions")
