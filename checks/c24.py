from vlib import itemdrive, lexdrive
LEVEL = "model_checking"
RULE = ("Lexing.tla gives dynamic rule items their meaning. Random rules with nested items are evaluated by the real code in "
        "every way: by argument first then match, twice, at once, the match first, everything in advance; TLC checks that all "
        "outcomes are the one of the specification and that both enumerations of variations contain it (ItemTrace). Languages "
        "whose lexicons all have an argument are lexed and judged by LexTrace.")


def run(ctx):
    for _ in ctx.rounds(30):
        traces = ctx.collect(itemdrive.evaluations, 8, (ctx.n(250, 500), 6))
        cases = [t.pop("case") for t in traces]
        ctx.sample(traces[0]["ev"][0])
        ctx.validate("ItemTrace", {"traces": traces}, cases, "rules")
        traces = ctx.collect(lexdrive.lex_traces, 8, (ctx.n(120, 300), 5, 14, False, "argy"))
        data, cases = lexdrive.pack(traces)
        ctx.validate("LexTrace", data, cases, "lexer runs")
