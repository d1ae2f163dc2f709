import z3
from pyvc.core import *
from pyvc.terms import *
from pyvc.lib import uf, concat, pystr_escape
from vclib import *

NL = z3.StringVal(pystr_escape("\n"))
SL = z3.StringVal("/")


class Index:
    """the specified text of the index: after k tests, text(k)"""

    def __init__(self, V, names, path):
        self.V, self.names, self.path = V, names.term, path
        self.T = z3.Function("index_text", I, S)
        self.seg = z3.Function("index_headings", SeqS, I, I, S)
        self.common = z3.Function("common_prefix", SeqS, SeqS, I)
        self.rep = uf("str_repeat", S, I, S)
        f = V.e.fact
        f(self.T(z3.IntVal(0)) == z3.StringVal(pystr_escape("# Books overview:\n")))
        d, e = z3.Consts("d e", SeqS)
        i, a = z3.Ints("i a")
        c = self.common(d, e)
        f(z3.ForAll([d, e], z3.And(0 <= c, c <= s_len(d), c <= s_len(e), z3.Or(c == s_len(d), c == s_len(e), s_nth(d, c) != s_nth(e, c))), patterns=[c]))
        f(z3.ForAll([d, e, i], z3.Implies(z3.And(0 <= i, i < c), s_nth(d, i) == s_nth(e, i)), patterns=[z3.MultiPattern(c, s_nth(d, i)), z3.MultiPattern(c, s_nth(e, i))]))
        f(z3.ForAll([d, a], self.seg(d, a, a) == z3.StringVal(""), patterns=[self.seg(d, a, a)]))

    def comps(self, k):
        return uf("str_split", S, S, SeqS)(PyVal.vs(s_nth(self.names, k)), SL)

    def domain(self, k):
        """path components under which test k is listed; those of no test are empty"""
        c = self.comps(k)
        return z3.If(k < 0, s_empty, s_take(c, s_len(c) - 1))

    def segment(self, d, a, b):
        b = z3.simplify(b)
        for j in (b, b + 1):
            self.V.e.fact(z3.Implies(z3.And(a < j, j <= s_len(d)), self.seg(d, a, j) == z3.Concat(self.seg(d, a, j - 1), self.line(d, j - 1))))
        self.V.e.fact(self.seg(d, a, a) == z3.StringVal(""))
        return self.seg(d, a, b)

    def line(self, d, i):
        return z3.Concat(self.rep(z3.StringVal("    "), i), z3.StringVal(" * "), PyVal.vs(s_nth(d, i)), NL)

    def link(self, k):
        c = self.comps(k)
        n = PyVal.vs(s_nth(self.names, k))
        return z3.Concat(self.rep(z3.StringVal("    "), s_len(c) - 1), z3.StringVal(" * ["), PyVal.vs(s_nth(c, s_len(c) - 1)), z3.StringVal("]("), n,
                         z3.StringVal(pystr_escape(".md)\n")))

    def upto(self, k):
        k = z3.simplify(k)
        for j in (k, k + 1):
            p = j - 1
            d0, d1 = self.domain(p - 1), self.domain(p)
            c = self.common(d0, d1)
            self.V.e.fact(s_len(self.comps(p)) >= 1)
            self.V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(self.names)),
                                     self.T(j) == z3.If(d0 == d1, z3.Concat(self.T(p), self.link(p)),
                                                        z3.Concat(self.T(p), NL, self.seg(d1, c, s_len(d1)), self.link(p)))))
        return self.T(k)

    def final(self):
        return z3.Concat(self.T(s_len(self.names)), NL)

    def text(self):
        return PyVal.vs(z3.Select(self.V.fs.cell.term, self.path))


def index_hints(V, ix):
    def hint(c):
        out = []
        t = ix.text()
        out.append(("text file", PyVal.is_VStr(z3.Select(V.fs.cell.term, ix.path))))
        if c.seq is not None and c.seq.eq(ix.names):
            out.append(("text", t == ix.upto(c.k)))
            for l, v, i in c.lists():
                out.append((f"{l} domain", v.toterm() == ix.domain(c.k - 1)))
            return out
        ls = [(l, v.toterm()) for l, v in c.locals.items() if isinstance(v, VList)]
        j = z3.Int("jc")
        for n, w, i0 in c.ints():
            W = iterm(w)
            for l, d in ls:
                for l2, e in ls:
                    if l < l2:
                        out.append((f"{n} common {l} {l2}", z3.And(0 <= W, W <= s_len(d), W <= s_len(e))))
                        out.append((f"{n} equal {l} {l2}", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < W), s_nth(d, j) == s_nth(e, j)), patterns=[s_nth(d, j), s_nth(e, j)])))
        lab = [l for l, (o, key, v) in c.locs.items() if o is V.fs.cell]
        for fl in lab:
            i0 = c.init(fl)
            if i0 is BOT:
                continue
            t0 = PyVal.vs(z3.Select(i0.term, ix.path))
            for n, w in c.locals.items():
                if type(w) in (int, SymInt):
                    a = iterm(w)
                    for l, d in ls:
                        if c.k is not None:
                            out.append((f"text {l} from {n}", t == z3.Concat(t0, ix.segment(d, a, a + c.k))))
                        if c.initval(n) is not None:
                            b = c.initval(n)
                            out.append((f"text {l} from {n}'s start", t == z3.Concat(t0, ix.segment(d, b, a))))
                            out.append((f"{n} after start", z3.And(b <= a, a <= s_len(d))))
        return out
    V.hint(hint)
