from vlib import lexdrive
LEVEL = "model_checking"
RULE = ("Random language definitions (all rule item kinds, groups, default actions/targets, consume, "
        "derived lexicons, empty matches) are compiled to real languages; every text is lexed by the real "
        "lexer and the events, open lexicons and tree are compared with the meaning Lexing.tla gives "
        "to the definition.")


def run(ctx):
    lexdrive.model(ctx, ctx.n(16, 60), ctx.n(3, 4))
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(lexdrive.lex_traces, 8, (300, 6, 14, False))
        data, cases = lexdrive.pack(traces)
        ctx.sample({"text": "".join(map(chr, traces[0]["ev"][-1]["text"])),
                    "events": traces[0]["ev"][-1]["evs"][:3]})
        ctx.validate("LexTrace", data, cases, "lexer runs")
