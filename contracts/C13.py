import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C13 import *


@contract("cache.LruCache.__init__", "cache.LruCache.__setitem__", "cache.LruCache.__getitem__", "cache.LruCache.__contains__", "cache.LruCache.__len__")
def lru(V):
    n = V.int("size")
    V.assume(n >= 0)
    T = V.arr(z3.K(PyVal, z3.IntVal(-1)), "last use")
    W = V.arr(z3.Const("W0", z3.ArraySort(PyVal, PyVal)), "last value")
    clock = V.cell(0, "clock", IntT)

    lru_hints(V, T, W, n, clock)
    cache = V.cls("cache", "LruCache")(n)
    while V.more():
        k = V.str("k")
        op = V.choose(4, "op")
        if op == 0:
            v = V.any("v")
            cache[k] = v
            W.term = z3.Store(W.term, pack(k), v.t)
            T.term = z3.Store(T.term, pack(k), iterm(clock.v))
            clock.v = clock.v + 1
        elif op == 1:
            held = k in cache
            r = cache[k]
            if held:
                V.ensure("reading a held key yields the value last written", V.sym(pack(r) == z3.Select(W.term, pack(k))))
                T.term = z3.Store(T.term, pack(k), iterm(clock.v))
                clock.v = clock.v + 1
            else:
                V.ensure("reading a key not held yields nothing", r is None)
        elif op == 2:
            size = len(cache)
            V.ensure("never more entries than the configured number", size <= n)
            a = V.str("a")
            b = V.str("b")
            if a in cache:
                V.ensure("only written keys are held", V.sym(used(T.term, pack(a))))
                if b not in cache:
                    V.ensure("a held key was used after every key not held",
                             V.implies(V.sym(used(T.term, pack(b))), V.sym(z3.Select(T.term, pack(b)) < z3.Select(T.term, pack(a)))))
            else:
                V.ensure("no key is evicted while there is room", V.implies(V.sym(used(T.term, pack(a))), size >= n))
        else:
            a = V.str("a")
            before = a in cache
            s0 = len(cache)
            if not (k in cache):
                x = cache[k]
                V.ensure("reading a key not held changes nothing", V.both(V.iff(before, a in cache), s0 == len(cache)))


@contract("cache.NoCache.__setitem__", "cache.NoCache.__getitem__", "cache.NoCache.__contains__", "cache.NoCache.__len__")
def no_cache(V):
    cache = V.cls("cache", "NoCache")()
    while V.more():
        k = V.str("k")
        if V.choose(2) == 0:
            cache[k] = V.any("v")
        else:
            V.ensure("holds nothing", V.both(len(cache) == 0, cache[k] is None, V.neg(k in cache)))
