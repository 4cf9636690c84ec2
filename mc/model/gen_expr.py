"""Exhaustive enumeration of expression texts up to a bound (used by X01, X02, X03)."""
import itertools

ARITH = ["+", "-", "*", "/", "#", "^", "<<", ">>", "&", "~", "|"]

def parens(n):
    """all ways to put parentheses around contiguous groups of n operands: none, and every binary tree, fully bracketed"""
    shapes = {()}
    def trees(i, j):
        if i == j:
            yield frozenset()
            return
        for k in range(i, j):
            for a in trees(i, k):
                for b in trees(k + 1, j):
                    s = set(a) | set(b)
                    if not (i == 0 and j == n - 1):
                        s.add((i, j))
                    yield frozenset(s)
    for t in trees(0, n - 1):
        shapes.add(tuple(sorted(t)))
        for g in t:
            shapes.add((g,))
    return sorted(shapes)

def render(vals, ops, groups, sp):
    out = []
    for i, v in enumerate(vals):
        if i:
            out.append((" %s " % ops[i - 1]) if sp else ops[i - 1])
        out.append("(" * sum(1 for g in groups if g[0] == i))
        out.append(v)
        out.append(")" * sum(1 for g in groups if g[1] == i))
    return "".join(out)

def enumerate_exprs(n, ops, valtuples, spaces=(False,)):
    for shape in parens(n):
        for o in itertools.product(ops, repeat=n - 1):
            for vals in valtuples:
                for sp in spaces:
                    yield render(vals, o, shape, sp)
