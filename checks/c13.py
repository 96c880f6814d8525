from vlib import lexdrive, xformdrive
LEVEL = "model_checking"
RULE = ("For random languages (also spread over two Language classes), random sets of transform methods and random texts, "
        "all calls of the transform methods are recorded while transforming the text and the tree; TLC compares both with "
        "the calls Transforms.tla derives from the meaning of the language.")


def run(ctx):
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(xformdrive.generated, 8, (150, 4, 24))
        data, cases = lexdrive.pack(traces)
        ctx.sample({"texts": cases[0]["texts"], "calls": traces[0]["ev"][0]["tree"][:3]})
        ctx.validate("TransformTrace", data, cases, "transforms")
        traces = ctx.collect(xformdrive.examples, 8, (30, 700))
        cases = [t.pop("case") for t in traces]
        ctx.validate("TransformTrace", {"langs": [], "traces": traces}, cases, "examples")
