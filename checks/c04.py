from vlib import treecheck
LEVEL = "model_checking"
RULE = ("Trees of random and bundled languages, fresh and after every edit of a history: TLC checks token texts, "
        "ascending order, parents, no empty contexts, groups, the flattening of the event stream, and copies.")


def run(ctx):
    treecheck.run(ctx, ["Tree", "WellFormed", "Parents", "Copy"], 900, 6, 24,
                  100, 6, 300, {"root": .06})
