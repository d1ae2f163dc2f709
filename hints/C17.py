import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.run import take_facts

LOWER = uf("str.lower", S, S)


def hash_function(V, M):
    """an unknown function of the request; what it is applied to is kept"""
    V.e.abs_only = True
    V.state["hashed"] = 0

    def f(o):
        V.state["hashed"] += 1
        V.state["object"] = copy_of(o)
        V.state["hash"] = V.str("identity")
        return V.state["hash"]
    V.patch(M, "json_to_sha1", f)
    return f


def copy_of(o):
    from pyvc.lib import copy_deepcopy
    return copy_deepcopy(o)


def low(V, x):
    return sterm(V.run(lambda: x.lower()).value)


def ignored(V, ignore, H):
    if isinstance(ignore, bool):
        return ignore
    # the first ignored name that is this header; the length when there is none
    L = named(V, ignore.toterm())
    h = low(V, H)
    first = V.e.const("first", I)
    lower = lambda t: z3.substitute(h, (H.t, t))
    V.e.fact(z3.And(0 <= first, first <= s_len(L), z3.Implies(first < s_len(L), lower(PyVal.vs(s_nth(L, first))) == h)))
    V.e.fact(forall_in(L, lambda e: lower(PyVal.vs(e)) != h, hi=first))
    V.state["ignored"] = L, first, h
    return V.sym(first < s_len(L))


def header_in(V, o, H):
    """whether the header is in the object, and its value"""
    h = o.get("headers")
    if h is None:
        return False, None
    D = h.toterm()
    x = PyVal.VStr(H.t)
    return V.sym(t_mem(d_dom(D), x)), d_get(D, x)


def same_header(has, value, before, H):
    x = PyVal.VStr(H.t)
    was = t_mem(d_dom(before), x)
    if value is None:
        return z3.Not(was)
    return z3.And(bterm(has) == was, z3.Implies(was, value == d_get(before, x)))


def same_dict(a, b):
    return a.toterm() == b.toterm()


def header_hints(V, H, before, ign):
    x = PyVal.VStr(H.t)
    ign = bterm(ign)
    L, first, h = V.state.get("ignored", (None, None, None))
    y = z3.Const("yh", PyVal)

    def hint(c):
        out = []
        keys = c.seq if c.seq is not None else c.loop.base
        visited = None
        if keys is not None:
            keys = named(V, keys)
            take_facts(V, keys, c.k)
            visited = s_mem(s_take(keys, c.k), x)
        was = t_mem(d_dom(before), x)
        dicts = []
        for l, v, i in c.dicts():
            try:
                dicts.append((l, v.toterm()))
            except (Exception, Unsupported):
                continue
        for l, v, i in c.lists():
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            m = s_mem(t, x)
            if L is not None:
                out.append((f"{l} lower", s_mem(t, PyVal.VStr(h)) == (first < c.k)))
            out.append((f"{l} holds only ignored", z3.Implies(m, z3.And(ign, was))))
            out.append((f"{l} distinct", s_uniq(t)))
            j = z3.Int("jd")
            if keys is not None:
                out.append((f"{l} of the visited", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), s_mem(keys, s_nth(t, j))), patterns=[s_nth(t, j)])))
            if visited is not None:
                out.append((f"{l} holds the ignored visited", m == z3.And(visited, ign)))
                out.append((f"{l} visited", z3.ForAll([y], z3.Implies(s_mem(t, y), z3.And(s_mem(keys, y), s_idx(keys, y) < c.k)), patterns=[s_mem(t, y)])))
        for l, D in dicts:
            has = t_mem(d_dom(D), x)
            out.append((f"{l} value", z3.Implies(has, z3.And(was, d_get(D, x) == d_get(before, x)))))
            if keys is not None:
                j = z3.Int("jr")
                out.append((f"{l} has the others", z3.ForAll([j], z3.Implies(z3.And(c.k <= j, j < s_len(keys)), t_mem(d_dom(D), s_nth(keys, j))), patterns=[s_nth(keys, j)])))
                out.append((f"{l} has ignored", z3.Implies(s_mem(keys, x), ign)))
            if visited is not None:
                out.append((f"{l} without the visited", has == z3.And(was, z3.Not(visited))))
                out.append((f"{l} only kept", z3.Implies(has, z3.And(visited, z3.Not(ign)))))
                out.append((f"{l} kept visited", has == z3.And(visited, z3.Not(ign))))
        return out
    V.hint(hint)
