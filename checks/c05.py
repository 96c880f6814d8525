from vlib import lexdrive
LEVEL = "model_checking"
RULE = ("TLC model checks the lexer as a transition system (termination under fairness, ascending tokens, stack) for "
        "wild languages and all short texts; random languages full of empty matches and (dead-ending, circular) "
        "default targets are lexed by the real lexer under a CPU limit and compared with Lexing.tla; every lexicon of "
        "every bundled language is used as root on mutated texts and the stream is judged by StreamTrace.")


def streams(job):
    seed, quick, ntexts, size = job
    return lexdrive.streams((seed, quick, seed % 5000 % 60 % 8, 8, ntexts, size))


def run(ctx):
    lexdrive.model(ctx, ctx.n(16, 60), ctx.n(3, 4))
    for _ in ctx.rounds(30, 2):
        traces = ctx.collect(lexdrive.lex_traces, 8, (150, 6, 14, False, "wild"))
        data, cases = lexdrive.pack(traces)
        ctx.validate("LexTrace", data, cases, "lexer runs of wild languages")
        traces = ctx.collect(streams, 8, (5, 120))
        cases = [t.pop("case") for t in traces]
        ctx.sample(cases[0])
        ctx.validate("StreamTrace", {"traces": traces}, cases, "bundled lexicons")
