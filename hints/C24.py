import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def num(t): return iterm(t.exp_line_number)


def line_at(L, m):
    """the expected line number m (from 1), or None behind the last one"""
    l = L.toterm()
    return z3.If(m <= s_len(l), s_nth(l, m - 1), PyVal.VNone)


def line_facts(V, L, *ns):
    l = L.toterm()
    for n in ns:
        V.e.fact(z3.Implies(z3.And(1 <= n, n <= s_len(l)), type_fact(s_nth(l, n - 1), StrT)))


def cursor_hints(V, t, L, ints=(), P=None, j=None, at=None):
    """the position is a line of the file or its end, bounded by the given numbers; P: no line at the probed number j has been passed over"""
    def hint(c):
        out = []
        n = num(t)
        N = s_len(L.toterm())
        line_facts(V, L, n)
        out.append(("a line or the end", z3.And(1 <= n, n <= N + 1)))
        out.append(("the line", pack(t.exp_line) == line_at(L, n)))
        nums = [(str(i), iterm(x)) for i, x in enumerate(ints)]
        for l, v, i in c.ints():
            nums.append((l, iterm(v)))
            nums.append((l + "0", iterm(i)))
        for l, x in nums:
            out.append((f"<= {l} or 1", n <= z3.If(x > 1, x, 1)))
            out.append((f"<= {l}", n <= x))
            out.append((f">= {l}", n >= x))
        if P is not None:
            p = P(PyVal.vs(s_nth(L.toterm(), j - 1)))
            out.append(("not passed from at", z3.Implies(z3.And(at <= j, j < n), z3.Not(p))))
            out.append(("not passed from 1", z3.Implies(z3.And(1 <= j, j < n), z3.Not(p))))
            out.append(("none behind", z3.Implies(z3.And(at <= j, j <= N), z3.Not(p))))
        return out
    V.hint(hint)


def predicate(V, name="is sought"):
    return z3.Function(name, S, B)


def holds(V, P, x):
    x = x.get() if isinstance(x, SymOpt) else x
    return V.sym(P(sterm(x)))


def ahead(t, L):
    return s_len(L.toterm()) + 1 - num(t)


def same_line(V, t, L):
    return V.sym(pack(t.exp_line) == line_at(L, num(t)))
