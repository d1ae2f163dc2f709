import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def t_of(x): return x.toterm() if isinstance(x, VList) else x


def enums(c):
    for l, v, i in c.of(SymEnum, enum.Enum):
        yield l, v, i


def verdict_hints(V, Res, allok, nofail, aborted=None, ff=None):
    """how verdict-valued variables, integers and lists summarise the executed results (ghost cells allok, nofail, aborted)"""
    ok, fail = pack(Res.OK), pack(Res.FAIL)

    def hint(c):
        A, F = bterm(allok.v), bterm(nofail.v)
        out = []
        if aborted is not None:
            out.append(("not aborted", z3.Not(bterm(aborted.v))))
            out.append(("aborted-> not all ok", z3.Implies(bterm(aborted.v), z3.Not(A))))
        if ff is not None:
            out.append(("fail fast -> all ok", z3.Implies(bterm(ff), A)))
        out.append(("all ok -> none failed", z3.Implies(A, F)))
        for l, v, i in enums(c):
            p = pack(v)
            out.append((f"{l} OK<->all ok", (p == ok) == A))
            out.append((f"{l} FAIL<->some fail", (p == fail) == z3.Not(F)))
        for l, v, i in c.ints():
            n = iterm(v)
            out.append((f"{l}==0<->all ok", (n == 0) == A))
            out.append((f"{l}>=0", n >= 0))
            out.append((f"{l} is 0 or -1", z3.Or(n == 0, n == -1)))
        for l, v, i in c.bools():
            out.append((f"{l}<->all ok", bterm(v) == A))
            out.append((f"{l}<->not all ok", bterm(v) == z3.Not(A)))
        for l, v, i in c.lists():
            out.append((f"{l} empty<->all ok", (s_len(v.toterm()) == 0) == A))
        return out
    V.hint(hint)


def progress_hints(V, executed, todo, written, kept, name=lambda e: PyVal.t3a(e)):
    """executed: results so far; written: records written so far; kept: filter of earlier records"""
    def hint(c):
        out = []
        ex = executed.toterm()
        j = z3.Int("jx")
        el = s_nth(ex, j)
        out.append(("executed names", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(ex)), name(el) == s_nth(todo, j)), patterns=[el])))
        out.append(("executed<=todo", s_len(ex) <= s_len(todo)))
        if c.seq is not None:
            out.append(("executed=k", s_len(ex) == c.k))
            out.append(("nothing executed", s_len(ex) == 0))
            if c.seq.eq(kept.seq):
                out.append(("written kept", written.toterm() == kept.upto(c.k)))
            # a loop over what is kept, chosen before
            take_facts(V, c.seq, c.k)
            out.append(("written so far", written.toterm() == s_take(c.seq, z3.simplify(c.k))))
        out.append(("written = kept + executed", written.toterm() == s_app(kept.all(), ex)))
        return out
    V.hint(hint)


def merge_hints(V, written, kept, reviewed, waiting):
    def hint(c):
        out = []
        w, r = written.toterm(), reviewed.toterm()
        out.append(("written = kept + reviewed", w == s_app(kept.all(), r)))
        if c.seq is not None:
            if c.seq.eq(kept.seq):
                out.append(("written kept", w == kept.upto(c.k)))
            wt = waiting.toterm()
            take_facts(V, c.seq, c.k)
            out.append(("written so far", w == s_take(c.seq, z3.simplify(c.k))))
            if c.seq.eq(wt):
                take_facts(V, wt, c.k)
                out.append(("written waiting", w == s_app(s_app(kept.all(), r), s_take(wt, c.k))))
        return out
    V.hint(hint)


def take_facts(V, t, k):
    k = z3.simplify(k)
    for j in (k, k + 1):
        V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(t)), s_take(t, j) == s_snoc(s_take(t, j - 1), s_nth(t, j - 1))))
