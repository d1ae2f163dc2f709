import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


class Concat:
    """the concatenation of the first k strings of a list"""
    _n = 0

    def __init__(self, V, l):
        Concat._n += 1
        self.V, self.l = V, l.toterm()
        self.fn = z3.Function(f"concat!{Concat._n}", I, S)
        V.e.fact(self.fn(z3.IntVal(0)) == z3.StringVal(""))

    def upto(self, k):
        k = z3.simplify(k)
        for j in (k, k + 1):
            self.V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(self.l)), self.fn(j) == z3.Concat(self.fn(j - 1), PyVal.vs(s_nth(self.l, j - 1)))))
            # the concatenation of fewer strings is a prefix
            self.V.e.fact(z3.Implies(z3.And(j >= 0, j <= s_len(self.l)), z3.PrefixOf(self.fn(j), self.fn(s_len(self.l)))))
        return self.fn(k)

    def all(self):
        return self.fn(s_len(self.l))


def feed_hints(V, t, X, cx, Y, cy, toks, line0, single=True):
    """feeding the tokens X one by one against the tokens Y: unmarked as long as they are the same ones"""
    def hint(c):
        out = []
        if c.seq is None or not c.seq.eq(X.toterm()):
            return out
        k = c.k
        n = s_len(Y.toterm())
        a, b = cx.upto(k), cy.upto(k)
        cy.upto(iterm(toks.k))
        j = z3.Int("jx")
        out.append(("written", sterm(t.out_line) == z3.Concat(sterm(line0), a)))
        out.append(("read", iterm(toks.k) == z3.If(k <= n, k, n)))
        same = z3.And(k <= n, a == b)
        none = pack(t.line_diff) == PyVal.VNone
        out.append(("unmarked -> the same so far", z3.Implies(none, same)))
        out.append(("the same so far", same))
        out.append(("unmarked", none))
        return out
    V.hint(hint)


def single_line(V, X):
    """no token of X is or contains a newline, and none is empty (tokens of a single line, see C01)"""
    V.e.fact(forall_in(X, lambda e: z3.And(PyVal.is_VStr(e), z3.Length(PyVal.vs(e)) > 0, z3.Not(z3.Contains(PyVal.vs(e), z3.StringVal("\n"))))))


def symstr(t):
    return SymStr(t)


def end_hints(V, t):
    def hint(c):
        return [] if c.seq is None else [("marked once something is written", z3.Implies(c.k > 0, pack(t.line_diff) != PyVal.VNone))]
    V.hint(hint)
