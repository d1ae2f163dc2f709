import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


class Deps:
    """uninterpreted description of the j-th declared dependency"""

    def __init__(self, V):
        self.is_resource = z3.Function("is_resource", I, B)
        self.value = z3.Function("resource_value", I, PyVal)
        self.found = z3.Function("found", I, B)
        self.result = z3.Function("result", I, PyVal)
        self.bfound = z3.Function("bound_found", I, B)
        self.bresult = z3.Function("bound_result", I, PyVal)
        self.probe = V.int("probe").t
        self.n = None


def args_hints(V, D, base, bound, case, me):
    def hint(c):
        out = []
        if c.k is None:
            return out
        x = D.probe
        want = z3.If(D.is_resource(x), D.value(x), z3.If(z3.And(bound, D.bfound(x)), D.bresult(x), D.result(x)))
        good = z3.Or(D.is_resource(x), D.found(x), z3.And(bound, D.bfound(x)))
        seen = z3.And(0 <= x, x < c.k)
        out.append(("seen dependencies have results", z3.Implies(seen, good)))
        for l, v, i in c.lists():
            if l.startswith("M:"):
                continue
            try:
                t = named(V, v.toterm())
            except (Exception, Unsupported):
                continue
            for b in {base, 0}:
                out.append((f"{l} one per dependency {b}", s_len(t) == b + c.k))
                out.append((f"{l} values {b}", z3.Implies(seen, s_nth(t, b + x) == want)))
            out.append((f"{l} case", s_nth(t, base - 1) == pack(case)))
            if me is not None:
                out.append((f"{l} instance", s_nth(t, 0) == pack(me)))
        return out
    V.hint(hint)


def first_facts(V, seq, fst, pred):
    """fst is the first index of the list satisfying pred, or its length"""
    t = seq.toterm()
    j = z3.Int("jf")
    V.e.fact(z3.And(0 <= fst, fst <= s_len(t)))
    V.e.fact(z3.Implies(fst < s_len(t), pred(s_nth(t, fst))))
    V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < fst), z3.Not(pred(s_nth(t, j)))), patterns=[s_nth(t, j)]))


def first_hints(V, seq, fst):
    def hint(c):
        if c.k is None:
            return []
        return [("no match so far", c.k <= fst), ("nothing so far but", c.k == 0)]
    V.hint(hint)


def as_seq(args):
    if isinstance(args, VList):
        return args.toterm()
    t = s_empty
    for a in args:
        t = s_snoc(t, pack(a))
    return t
