import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C12 import first_facts
from hints.run import take_facts


def not_before(V, fst):
    V.hint(lambda c: [] if c.k is None else [("no match so far", c.k <= fst)])


class Order:
    """O(L): wherever y is in L, x is before it (x is a direct dependency of y; both arbitrary); defined by recursion over L.
    The facts besides the definition are proved by induction over the second list (contract lemma)."""

    def __init__(self, V, x, y, lemmas=True):
        self.x, self.y = x, y
        s, t = z3.Consts("so to", SeqS)
        z = z3.Const("zo", PyVal)
        k = z3.Int("ko")
        o = self.o = z3.Function("ordered", SeqS, B)
        f = V.e.fact
        f(o(s_empty))
        f(z3.ForAll([s, z], o(s_snoc(s, z)) == z3.And(o(s), z3.Implies(z == y, s_mem(s, x))), patterns=[o(s_snoc(s, z))]))
        u = self.u = z3.Function("once", SeqS, B)
        f(u(s_empty))
        f(z3.ForAll([s, z], u(s_snoc(s, z)) == z3.And(u(s), z3.Not(s_mem(s, z))), patterns=[u(s_snoc(s, z))]))
        if lemmas:
            f(z3.ForAll([s, t], z3.Implies(z3.And(o(s), o(t)), o(s_app(s, t))), patterns=[o(s_app(s, t))]))
            f(z3.ForAll([s], z3.Implies(z3.And(o(s), s_mem(s, y)), s_mem(s, x)), patterns=[z3.MultiPattern(o(s), s_mem(s, y))]))

    def at(self, V, s, k):
        """the definition along the prefixes of s (lemma: a prefix of an ordered list is ordered)"""
        k = z3.simplify(k)
        for j in (k, k + 1):
            V.e.fact(z3.Implies(z3.And(self.o(s), 0 <= j, j < s_len(s), s_nth(s, j) == self.y), s_mem(s_take(s, j), self.x)))


def lemma_steps(V):
    """induction steps of the lemmas of Order"""
    x, y, z = z3.Consts("x! y! z!", PyVal)
    s, t = z3.Consts("s! t!", SeqS)
    n, j = z3.Ints("n! j!")
    O = Order(V, x, y, lemmas=False)
    o = O.o
    I_ = z3.Implies
    V.ensure("append, base", V.sym(I_(o(s), o(s_app(s, s_empty)))))
    V.ensure("append, step", V.sym(I_(z3.And(I_(z3.And(o(s), o(t)), o(s_app(s, t))), o(s), o(s_snoc(t, z))), o(s_app(s, s_snoc(t, z))))))
    V.ensure("member, base", V.sym(I_(s_mem(s_empty, y), s_mem(s_empty, x))))
    V.ensure("member, step", V.sym(I_(z3.And(I_(z3.And(o(s), s_mem(s, y)), s_mem(s, x)), o(s_snoc(s, z)), s_mem(s_snoc(s, z), y)), s_mem(s_snoc(s, z), x))))
    V.ensure("prefix, step", V.sym(I_(z3.And(I_(z3.And(o(s), 0 <= j, j < s_len(s), s_nth(s, j) == y), s_mem(s_take(s, j), x)),
                                             o(s_snoc(s, z)), 0 <= j, j < s_len(s) + 1, s_nth(s_snoc(s, z), j) == y),
                                      s_mem(s_take(s_snoc(s, z), j), x))))


class Graph:
    """direct dependencies that must run (contract of method_dependencies) and, for one arbitrary pair y depending directly on x and one arbitrary
    name e, the contract of all_method_dependencies"""

    def __init__(self, V):
        self.V = V
        self.deps_of = z3.Function("deps", PyVal, SeqS)
        self.all_of = z3.Function("all_deps", PyVal, SeqS)
        self.case = z3.Function("case", PyVal, PyVal)
        self.rank = z3.Function("rank", PyVal, I)
        self.reach = z3.Function("reachable", PyVal, PyVal, B)
        self.chosen = z3.Function("chosen", PyVal, B)
        self.need = z3.Function("needed", PyVal, B)
        self.x, self.y, self.e = pack(V.str("x")), pack(V.str("y")), pack(V.str("e"))
        self.q = V.int("q").t
        V.assume(V.sym(s_mem(self.deps_of(self.case(self.y)), self.x)))
        self.O = Order(V, self.x, self.y)
        f = V.e.fact
        m, d = z3.Consts("mg dg", PyVal)
        # acyclic dependencies (assumption) and reachability
        f(z3.ForAll([m, d], z3.Implies(s_mem(self.deps_of(m), d),
                                       z3.And(self.rank(self.case(d)) >= 0, self.rank(self.case(d)) < self.rank(m), self.reach(m, d),
                                              z3.Implies(self.reach(self.case(d), self.e), self.reach(m, self.e)))),
                    patterns=[s_mem(self.deps_of(m), d)]))
        # contract of the recursive function
        f(z3.ForAll([m, d], z3.Implies(s_mem(self.deps_of(m), d), s_mem(self.all_of(m), d)), patterns=[z3.MultiPattern(self.all_of(m), s_mem(self.deps_of(m), d))]))
        f(z3.ForAll([m], z3.And(self.O.o(self.all_of(m)), z3.Implies(s_mem(self.all_of(m), self.e), self.reach(m, self.e))), patterns=[self.all_of(m)]))
        V.e.assumptions.add("dependencies between tests are acyclic (a decorator can only refer to what is already defined)")

    def order(self, L): return self.O.o(L)
    def once(self, L): return self.O.u(L)
    def needed(self, e): return self.need(e)

    def hints_transitive(self, m):
        V = self.V
        D = self.deps_of(pack(m))

        def hint(c):
            out = []
            e = self.e
            for l, v, i in c.lists():
                if l.startswith("M:"):
                    continue
                t = v.toterm()
                out.append((f"{l} ordered", self.order(t)))
                out.append((f"{l} only dependencies", z3.Implies(s_mem(t, e), self.reach(pack(m), e))))
                if c.k is not None:
                    s = named(V, c.seq)
                    take_facts(V, s, c.k)
                    j = z3.simplify(c.k)
                    V.e.fact(z3.Implies(z3.And(0 <= j, j < s_len(s)), s_mem(s, s_nth(s, j))))
                    for w, z in (("e", e), ("x", self.x)):
                        out.append((f"{l} has visited {w}", z3.Implies(s_mem(s_take(s, c.k), z), s_mem(t, z))))
            return out
        V.hint(hint)

    def selected_facts(self, cases):
        """names are unique; needed: selected, or reachable from a selected case"""
        V = self.V
        t = cases.toterm()
        j = z3.Int("jn")
        n = lambda i: PyVal.t2a(s_nth(t, i))
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), self.case(n(j)) == PyVal.t2b(s_nth(t, j))), patterns=[s_nth(t, j)]))
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t), self.chosen(n(j))),
                                           z3.And(self.need(n(j)), z3.Implies(self.reach(PyVal.t2b(s_nth(t, j)), self.e), self.need(self.e)))), patterns=[s_nth(t, j)]))
        V.e.assumptions.add("test names are unique in a project")

    def hints_selected(self, cases):
        V = self.V
        t = cases.toterm()

        def hint(c):
            out = []
            name = PyVal.t2a(s_nth(t, self.q))
            for l, v, i in c.lists():
                if l.startswith("M:"):
                    continue
                try:
                    L = v.toterm()
                except (Exception, Unsupported):
                    continue
                out.append((f"{l} ordered", self.order(L)))
                out.append((f"{l} once", self.once(L)))
                out.append((f"{l} needed", z3.Implies(s_mem(L, self.e), self.need(self.e))))
                if c.k is not None:
                    s = named(V, c.seq)
                    take_facts(V, s, c.k)
                    self.O.at(V, s, c.k)
                    if c.seq.eq(t):
                        out.append((f"{l} has the selected cases", z3.Implies(z3.And(0 <= self.q, self.q < c.k, self.chosen(name)), s_mem(L, name))))
                    else:
                        i0 = c.init(l)
                        if isinstance(i0, VList):
                            for w, z in (("name", name), ("x", self.x), ("y", self.y)):
                                out.append((f"{l} keeps {w}", z3.Implies(s_mem(i0.toterm(), z), s_mem(L, z))))
                        for w, z in (("e", self.e), ("x", self.x), ("y", self.y)):
                            out.append((f"{l} has visited {w}", z3.Implies(s_mem(s_take(s, c.k), z), s_mem(L, z))))
            return out
        V.hint(hint)
