import z3
from pyvc.core import StrT
from pyvc.terms import PyVal
from vclib import Str, sv, forall_in, exists_in, pred_hints, sterm


def covers(name, s):
    """pattern s covers the test name"""
    n = sterm(name)
    return z3.And(z3.PrefixOf(s, n), z3.Or(z3.Length(s) == 0, z3.Length(n) == z3.Length(s),
                                           z3.SubString(n, z3.Length(s), 1) == Str("/")))


@contract("tests.Tests.is_selected")
def selection(V):
    Tests = V.cls("tests", "Tests")
    t = V.new(Tests, cases=V.list(StrT, "cases"))
    name = V.str("name")
    sel = V.list(StrT, "sel")
    skip = Str("skip:")
    V.assume(z3.Not(z3.PrefixOf(skip, name.t)))
    isskip = lambda e: z3.PrefixOf(skip, sv(e))
    sc = lambda e: z3.And(isskip(e), covers(name, z3.SubString(sv(e), 5, z3.Length(sv(e)) - 5)))
    pos = lambda e: z3.Or(sv(e) == Str("*"), covers(name, sv(e)))
    pred_hints(V, {"skip": isskip, "skipcover": sc, "pos": pos})
    r = V.run(t.is_selected, name, sel)
    V.ensure("is_selected returns normally", r.ok)
    A = forall_in(sel, lambda e: z3.Not(sc(e)))
    B = forall_in(sel, isskip)
    C = exists_in(sel, pos)
    V.ensure("selected exactly when not skipped and (skips only, or '*', or covered)",
             V.iff(bool(r.value), z3.And(A, z3.Or(B, C))))


from contracts.C10 import selected as selected_cases, invocation as selection_given
