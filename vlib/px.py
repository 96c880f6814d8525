"""Projection of real parce objects to plain data."""
from .core import codes
from .lang import action_index, NONESTR


class Ids:
    """Numbers lexicons and actions of any language by identity."""
    def __init__(self):
        self.lex = {}
        self.act = {}
        self.keep = []

    def key(self, lexicon):
        if lexicon is None:
            return [0, NONESTR]
        n = self.lex.setdefault(id(lexicon), len(self.lex) + 1)
        self.keep.append(lexicon)
        return [n, NONESTR]

    def action(self, a):
        self.keep.append(a)
        return self.act.setdefault(id(a), len(self.act) + 1)


class GenIds:
    """For a generated language (lang.Compiled)."""
    def __init__(self, comp):
        self.key = comp.key
        self.action = action_index


def events(ids, evs):
    """[pop, push, lexemes] of real events."""
    res = []
    for e in evs:
        pop, push = 0, []
        if e.target is not None:
            pop, push = -e.target.pop, [ids.key(l) for l in e.target.push]
        res.append({"pop": pop, "push": push,
                    "lexemes": [[p, codes(t), ids.action(a)] for p, t, a in e.lexemes]})
    return res


def flat(ids, root, act=None):
    """The tree in document order: [depth, "C", lexicon, arg] for contexts,
    [depth, "T", pos, text, action, group] for tokens; not the root itself."""
    res = []
    act = act or ids.action
    def walk(c, d):
        for n in c:
            if n.is_context:
                k = ids.key(n.lexicon)
                res.append([d, "C", k[0], k[1]])
                walk(n, d + 1)
            else:
                res.append([d, "T", n.pos, codes(n.text), act(n.action), -99 if n.group is None else n.group])
    walk(root, 1)
    return res


def parents(root):
    """For every node in document order the number (in that order) of the node
    its parent attribute refers to; 0 is the root, -1 an unknown node."""
    nums = {id(root): 0}
    nodes = []
    def walk(c):
        for n in c:
            nodes.append(n)
            nums[id(n)] = len(nodes)
            if n.is_context:
                walk(n)
    walk(root)
    return [nums.get(id(n.parent), -1) for n in nodes]
