from vlib import datadrive
LEVEL = "model_checking"
RULE = ("DataLangs.tla says what value a JSON, CSV or INI text or a numeral (English, Dutch, German, French) stands for; "
        "random valid texts are transformed with the bundled transforms, by text and by tree, and TLC compares the values.")


def run(ctx):
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(datadrive.values, 8, (ctx.n(100, 200), 25))
        cases = [t.pop("case") for t in traces]
        ctx.sample({"lang": cases[0]["lang"], "text": cases[0]["texts"][0], "value": traces[0]["ev"][0]["txt"]})
        ctx.validate("DataTrace", {"traces": traces}, cases, "values")
