import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def identity_view(V, l, f):
    """the j-th element of the list l is f(j)"""
    return V.itemview(l, f)


def trace_hints(V, is_trace):
    """lists of integers in scope: the element at position j is j, and there are as many as loop rounds"""
    j = z3.Int("jt")

    def hint(c):
        out = []
        for l, v, i in c.lists():
            if l.startswith("M:") or (v.conc is not None and len(v.conc) > 0):
                continue
            try:
                t = named(V, v.toterm())
            except (Exception, Unsupported):
                continue
            out.append((f"{l} counts the rounds", s_len(t) == c.k))
            out.append((f"{l} is 0,1,2,...", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), s_nth(t, j) == PyVal.VInt(j)), patterns=[s_nth(t, j)])))
        return out
    V.hint(hint)
