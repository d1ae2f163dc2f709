import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def used(T, k): return z3.Select(T, k) >= 0


def lru_hints(V, T, W, n, clock):
    """relation between an insertion-ordered map of the implementation and the ghost history (time of last use, last value)"""
    def hint(c):
        x = z3.Const("xk", PyVal)
        out = [("clock", z3.ForAll([x], z3.Select(T.term, x) < iterm(clock.v), patterns=[z3.Select(T.term, x)])), ("clock0", iterm(clock.v) >= 0)]
        t, w = T.term, W.term
        x, y = z3.Consts("xk yk", PyVal)
        i, j = z3.Ints("ik jk")
        for l, d, init in c.dicts():
            D = d.toterm()
            dom = d_dom(D)
            o = d_ord(D)
            out += [
                (f"{l} holds used keys", z3.ForAll([x], z3.Implies(t_mem(dom, x), z3.And(used(t, x))),
                                                   patterns=[t_mem(dom, x)])),
                (f"{l} values", z3.ForAll([x], z3.Implies(t_mem(dom, x), z3.And(d_get(D, x) == z3.Select(w, x))), patterns=[t_mem(dom, x)])),
                (f"{l} in order of use", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < s_len(o)),
                                                                      z3.Select(t, s_nth(o, i)) < z3.Select(t, s_nth(o, j))),
                                                   patterns=[z3.MultiPattern(s_nth(o, i), s_nth(o, j))])),
                (f"{l} bounded", t_card(dom) <= n.t),
                (f"{l} most recent", z3.ForAll([x, y], z3.Implies(z3.And(t_mem(dom, x), z3.Not(t_mem(dom, y)), used(t, y)),
                                                                  z3.Select(t, y) < z3.Select(t, x)),
                                               patterns=[z3.MultiPattern(t_mem(dom, x), z3.Select(t, y))])),
                (f"{l} nothing evicted while there is room", z3.ForAll([y], z3.Implies(z3.And(used(t, y), z3.Not(t_mem(dom, y))), t_card(dom) >= n.t),
                                                                       patterns=[z3.Select(t, y)])),
            ]
        return out
    V.hint(hint)


