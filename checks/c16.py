from vlib import formatdrive
LEVEL = "model_checking"
RULE = ("Formats.tla gives for every character the format it must get from the themes, the tree and the requested range. Real "
        "formatters with random themes (default, per language, with base format and unparsed format) format random ranges of "
        "random texts in random languages; TLC checks order, coverage and the format of every character, and the pieces of text.")


def run(ctx):
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(formatdrive.formatting, 8, (ctx.n(80, 120), 20, 30))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"text": cases[0]["text"], "case": traces[0]["ev"][0]})
        ctx.validate("FormatTrace", {"traces": traces}, cases, "formatting")
