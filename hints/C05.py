import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def content(V, p):
    return V.fs.get(p)


def same(V, a, b):
    return V.sym(a == b)


def well_formed(V, fs, dirs, probes):
    """the directories are directories when they exist, and what is below them has them above"""
    for d in dirs:
        V.assume(V.implies(fs.exists(d), fs.isdir(d)))
        for q in probes:
            V.assume(V.implies(V.both(V.sym(z3.PrefixOf(z3.Concat(sterm(d), z3.StringVal("/")), sterm(q))), fs.exists(q)), fs.isdir(d)))


def asking_hints(V, Req, last, failed):
    def hint(c):
        out = []
        for l, v, i in c.bools():
            out.append((f"not {l}", z3.Not(bterm(v))))
        for l, v, i in c.of(SymEnum, enum.Enum):
            out.append((f"{l} is none", pack(v) == pack(Req.NONE)))
            for m, b, i in c.bools():
                out.append((f"{m} or {l} is none", z3.Or(bterm(b), pack(v) == pack(Req.NONE))))
                out.append((f"not {m} or {l} is none", z3.Or(z3.Not(bterm(b)), pack(v) == pack(Req.NONE))))
            out.append((f"{l} is freeze <-> accepted", (pack(v) == pack(Req.FREEZE)) == z3.And(sterm(last.v) == z3.StringVal("a"), z3.Not(bterm(failed)))))
        return out
    V.hint(hint)
