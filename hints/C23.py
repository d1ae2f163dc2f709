import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C24 import line_facts, line_at, num


class Listed:
    """the expected items: the lines from number n on that start with the prefix, without it; up to line number end (exclusive)"""

    def __init__(self, V, L, n, prefix):
        self.V, self.L, self.n, self.p = V, L.toterm(), iterm(n), sterm(prefix)
        self.fn = z3.Function("listed", I, SetS)
        self.end = V.e.const("end of the list", I)
        N = s_len(self.L)
        V.e.fact(self.fn(self.n) == t_empty)
        V.e.fact(z3.And(self.n <= self.end, self.end <= N + 1))
        j = z3.Int("jl")
        el = s_nth(self.L, j - 1)
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(self.n <= j, j < self.end), z3.PrefixOf(self.p, PyVal.vs(el))), patterns=[el]))
        V.e.fact(z3.Or(self.end == N + 1, z3.Not(z3.PrefixOf(self.p, PyVal.vs(s_nth(self.L, self.end - 1))))))

    def item(self, j):
        t = PyVal.vs(s_nth(self.L, j - 1))
        return PyVal.VStr(z3.SubString(t, z3.Length(self.p), z3.Length(t) - z3.Length(self.p)))

    def upto(self, k):
        """the items of the lines with numbers n .. k-1"""
        k = z3.simplify(k)
        for j in (k, k + 1):
            self.V.e.fact(z3.Implies(z3.And(j > self.n, j <= self.end), self.fn(j) == t_add(self.fn(j - 1), self.item(j - 1))))
        return self.fn(k)

    def all(self):
        return self.fn(self.end)


def collect_hints(V, t, L, E, items, x=None, extra=None, equal=None):
    """while the expected list is read, and while the items are written; x: an expected item that is not written, extra: number of an item that is not expected"""
    Xs = items.toterm()

    def hint(c):
        out = []
        n = num(t)
        line_facts(V, L, n, n + 1)
        E.upto(n)
        out.append(("a line or the end", z3.And(1 <= n, n <= s_len(L.toterm()) + 1)))
        out.append(("the line", pack(t.exp_line) == line_at(L, n)))
        out.append(("within the list", z3.And(E.n <= n, n <= E.end)))
        none = pack(t.line_diff) == PyVal.VNone
        marked = z3.Or(iterm(t.diffs) != 0, z3.Not(none))
        out.append(("diffs>=0", iterm(t.diffs) >= 0))
        out.append(("marked", marked))
        out.append(("unmarked", z3.And(iterm(t.diffs) == 0, none)))
        items_loop = c.seq is not None and c.seq.eq(Xs)
        y = z3.Const("ye", PyVal)
        for l, v, i in c.sets():
            T = v.term
            out.append((f"{l} is what has been read", T == E.upto(n)))
            out.append((f"{l} within expected", z3.ForAll([y], z3.Implies(t_mem(T, y), t_mem(E.all(), y)), patterns=[t_mem(T, y)])))
            if x is not None:
                out.append((f"{l} keeps what is not written", t_mem(T, pack(x))))
            if items_loop:
                k = c.k
                if extra is not None:
                    out.append((f"{l} never has the extra item", z3.Not(t_mem(T, s_nth(Xs, iterm(extra))))))
                    out.append((f"marked behind the extra item", z3.Implies(k > iterm(extra), marked)))
                if equal is not None:
                    j = z3.Int("je")
                    el = s_nth(Xs, j)
                    out.append((f"{l} has the items to come", z3.ForAll([j], z3.Implies(z3.And(k <= j, j < s_len(Xs)), t_mem(T, el)), patterns=[el])))
                    out.append((f"{l} has no item that was written", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(t_mem(T, el))), patterns=[el])))
        for l, v, i in c.ints():
            out.append((f"{l} begin", iterm(v) == E.n))
            out.append((f"{l} end", iterm(v) == E.end))
        return out
    V.hint(hint)


def distinct_items(V, items):
    i, j = z3.Ints("id jd")
    X = items.toterm()
    V.e.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < s_len(X)), s_nth(X, i) != s_nth(X, j)), patterns=[z3.MultiPattern(s_nth(X, i), s_nth(X, j))]))


def not_written(V, items, x):
    V.e.fact(forall_in(items, lambda e: e != pack(x)))


def is_expected(V, E, x):
    return V.sym(t_mem(E.all(), pack(x)))




def equal_sets(V, E, items):
    """every item is expected, every expected one is an item"""
    V.e.fact(forall_in(items, lambda e: t_mem(E.all(), e)))
    at = z3.Function("place of item", PyVal, I)
    y = z3.Const("ye", PyVal)
    X = items.toterm()
    V.e.fact(z3.ForAll([y], z3.Implies(t_mem(E.all(), y), z3.And(0 <= at(y), at(y) < s_len(X), s_nth(X, at(y)) == y)), patterns=[t_mem(E.all(), y)]))


def expected_at(V, E, items, k):
    return V.sym(t_mem(E.all(), s_nth(items.toterm(), iterm(k))))


def end_of(E):
    return SymInt(E.end)
