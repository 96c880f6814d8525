from vlib import treecheck
LEVEL = "model_checking"
RULE = ("Histories of edits, batches, undo/redo and root lexicon changes on a TreeBuilder and a Document, for "
        "random languages (bounded lookahead) whose meaning Lexing.tla defines, and for all bundled languages "
        "with the from-scratch events recorded; after every step TLC compares tree, open lexicons and root "
        "context with the tree of the text from scratch.")


def run(ctx):
    treecheck.run(ctx, ["Tree", "Open", "Root"], 900, 8, 30,
                  120, 12, 150, {"root": .1})
