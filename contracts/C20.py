from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C20 import *

PAIR = TupT(StrT, AnyT)


class Parsed:
    i = I = v = L = f = c = r = u = a = p = s = S = cov = False
    md_viewer = diff_tool = cmd = None
    test_cases = ("test",)


def project(V):
    """an arbitrary tree and arbitrary tests; p: an arbitrary file of the tree"""
    tests = V.mod("tests")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    base = V.path("books directory")
    w = Walk(V)
    cases = V.list(PAIR, "cases")
    names = V.list(StrT, "names")
    V.e.fact(pointwise(names, cases, lambda a, b: a == PyVal.t2a(b)))
    proper_names(V, names)
    gone = V.cell(False, "removed", BoolT)
    listed = V.cell(False, "listed", BoolT)
    other = V.cell(False, "anything else removed", BoolT)

    def walk(top, *args, **kwargs):
        V.ensure("the tree is walked from the books directory", V.eq(top, base))
        return w.roots

    def remove(path):
        V.ensure("only a file of the tree is removed", V.sym(walked(pack(path))))
        V.ensure("listing removes nothing", parsed.cmd == "--clean")
        gone.v = V.either(gone.v, V.eq(path, w.p))

    def out(*args, **kwargs):
        for x in args:
            if parsed.cmd == "--garbage":
                V.ensure("only a file of the tree is listed", V.sym(walked(pack(x))))
                listed.v = V.either(listed.v, V.eq(x, w.p))
    V.patch(tests.os, "walk", walk)
    V.patch(tests.os, "remove", remove)
    V.patch(tests.os, "unlink", remove)
    V.patch(tests, "print", out)
    V.patch_fn("tests", "get_default_config", lambda: VDict())
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=VList(conc=[]))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cases, config: (VList(conc=[]), cases))
    V.patch(tests.Tests, "selected_names", lambda self, selection, cache_out_dir=None: V.list(StrT, "selected"))
    V.patch(tests.Tests, "all_names", lambda self: names)
    parsed = Parsed()
    parsed.cmd = "--clean" if V.choose(2, "command") == 1 else "--garbage"
    t = V.new(tests.Tests, cases=cases)
    return t, base, w, names, parsed, gone if parsed.cmd == "--clean" else listed


@contract("tests.Tests.exec_parsed")
def kept(V):
    """p is some test's: it is neither listed nor removed"""
    t, base, w, names, parsed, hit = project(V)
    n = V.int("owner")
    V.assume(V.both(0 <= n, n < len(names)))
    name = name_at(names, n)
    if V.choose(2, "kind of file") == 0:
        V.assume(V.sym(w.p.t == md_of(base, name)))
        mark = md_of(base, name)
    else:
        V.assume(V.sym(z3.PrefixOf(dir_of(base, name), w.p.t)))
        mark = dir_of(base, name)
    garbage_hints(V, w, n, mark, hit)
    r = V.run(t.exec_parsed, base, parsed)
    V.ensure("the command ends normally", r.ok)
    V.ensure("a file of an existing test is neither listed nor removed", V.neg(hit.v))


@contract("tests.Tests.exec_parsed")
def index(V):
    """p is the index"""
    t, base, w, names, parsed, hit = project(V)
    mark = joined(base.t, Str("index.md"))
    V.assume(V.sym(w.p.t == mark))
    garbage_hints(V, w, None, mark, hit)
    r = V.run(t.exec_parsed, base, parsed)
    V.ensure("the command ends normally", r.ok)
    V.ensure("the index is neither listed nor removed", V.neg(hit.v))


@contract("tests.Tests.exec_parsed")
def garbage(V):
    """p is nobody's: it is listed or removed"""
    t, base, w, names, parsed, hit = project(V)
    V.assume(nobody_owns(V, names, base, w.p))
    V.assume(V.sym(w.p.t != joined(base.t, Str("index.md"))))
    garbage_hints(V, w, None, None, hit)
    r = V.run(t.exec_parsed, base, parsed)
    V.ensure("the command ends normally", r.ok)
    V.ensure("a file that belongs to no test is listed, or removed when cleaning", hit.v)


from contracts.C22 import names as test_names
