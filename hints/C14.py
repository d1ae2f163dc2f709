import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.run import take_facts


def opt(D, x):
    """value of a variable, VNone when absent"""
    return z3.If(t_mem(d_dom(D), x), d_get(D, x), PyVal.VNone)


def env_hints(V, x, env0, others=(), facts=()):
    """what the loops do to the one (arbitrary) variable x: the dictionaries that record its original value, its current value"""

    def hint(c):
        out = []
        D = V.environ.toterm()
        keys = c.seq if c.seq is not None else c.loop.base
        visited = None
        if keys is not None:
            keys = named(V, keys)
            take_facts(V, keys, c.k)
            visited = s_mem(s_take(keys, c.k), x)
        for l, v, i in c.dicts():
            if v is V.environ or l.startswith("M:"):
                continue
            M = v.toterm()
            dom = d_dom(M)
            out.append((f"{l} records the original value", z3.Implies(t_mem(dom, x), d_get(M, x) == opt(env0, x))))
            out.append((f"unchanged unless in {l}", z3.Implies(z3.Not(t_mem(dom, x)), opt(D, x) == opt(env0, x))))
            if visited is not None:
                out.append((f"{l} has exactly the visited names", t_mem(dom, x) == visited))
            for nm, val in others:
                out.append((f"if in {l} the variable has the {nm} value", z3.Implies(t_mem(dom, x), opt(D, x) == val)))
        ini = entry(c, V.environ)
        if visited is not None and ini is not None:
            out.append(("a visited variable is restored", z3.Implies(visited, opt(D, x) == opt(env0, x))))
            out.append(("a variable not visited is as at entry", z3.Implies(z3.Not(visited), opt(D, x) == opt(ini, x))))
            for nm, val in others:
                out.append((f"a visited variable has the {nm} value", z3.Implies(visited, opt(D, x) == val)))
            for nm, f in facts:
                out.append((f"visited: {nm}", z3.Implies(visited, f)))
        return out
    V.hint(hint)


def entry(c, obj):
    for l, (o, key, v) in c.locs.items():
        if o is obj or v is obj:
            i = c.init(l)
            if isinstance(i, VDict):
                return i.toterm()
    return None
