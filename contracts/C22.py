from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C22 import *

PAIR = TupT(StrT, AnyT)


def same(V, name=None, case=None):
    """element by element: what happens to name and case"""
    name = (lambda x: x) if name is None else name
    case = (lambda x: x) if case is None else case
    return {"pair": lambda a, b: pair_ok(a), "name": lambda a, b: pair_name(a) == name(pair_name(b)), "case": lambda a, b: pair_case(a) == case(pair_case(b))}


def ensure_pointwise(V, label, out, src, rels):
    for n, f in rels.items():
        V.ensure(label + " (" + n + ")", V.sym(pointwise(out, src, f)))


@contract("testsuite.merge_tests")
def merge(V):
    flat = V.list(PAIR, "all cases")
    arg = V.any("tests")

    def cases_of(x):
        V.ensure("merging flattens its argument", V.eq(x, arg))
        return flat
    V.patch_fn("testsuite", "cases_of", cases_of)
    rels = same(V)
    pointwise_hints(V, rels)
    r = V.run(V.mod("testsuite").merge_tests, arg)
    V.ensure("merging returns normally", r.ok)
    ensure_pointwise(V, "merged: the tests in order with unchanged names", r.value.cases, flat, rels)


@contract("testsuite.cases_of")
def flatten_list(V):
    orig = V.mod("testsuite").cases_of
    items = V.list(AnyT, "suites")
    f = z3.Function("flat", PyVal, SeqS)
    V.patch_fn("testsuite", "cases_of", lambda x: VList(term=f(pack(x)), et=AnyT))
    want = Cat(V, items, f)
    cat_hints(V, want)
    r = V.run(orig, items)
    V.ensure("flattening returns normally", r.ok)
    V.ensure("the cases of a list are the concatenation of the cases of its elements, in order", V.sym(r.value.toterm() == want.all()))


@contract("testsuite.cases_of")
def flatten_tests(V):
    cases = V.list(PAIR, "cases")
    t = V.new(V.cls("tests", "Tests"), cases=cases)
    r = V.run(V.mod("testsuite").cases_of, t)
    V.ensure("flattening a Tests returns normally", r.ok)
    V.ensure("the cases of a Tests are its cases", V.sym(r.value.toterm() == cases.toterm()))
    V.ensure("the Tests is not changed", V.sym(t.cases.toterm() == cases.toterm()))


@contract("testsuite.decorate_tests")
def decorate(V):
    flat = V.list(PAIR, "all cases")
    arg = V.any("tests")
    d = z3.Function("decorated", PyVal, PyVal)
    V.patch_fn("testsuite", "cases_of", lambda x: flat)
    rels = same(V, case=d)
    pointwise_hints(V, rels)
    r = V.run(V.mod("testsuite").decorate_tests, lambda m: unpack(d(pack(m)), AnyT), arg)
    V.ensure("decorating returns normally", r.ok)
    ensure_pointwise(V, "decorated: every test wrapped, names and order kept", r.value.cases, flat, rels)


@contract("testsuite.TestSuite.__init__")
def suite(V):
    cases = V.list(PAIR, "cases")
    name = V.path("suite")
    V.assume(V.sym(forall_in(cases, lambda e: z3.Not(z3.PrefixOf(Str("/"), PyVal.vs(PyVal.t2a(e)))))))
    rels = same(V, name=lambda x: PyVal.VStr(z3.Concat(name.t, Str("/"), PyVal.vs(x))))
    pointwise_hints(V, rels)
    r = V.run(V.cls("testsuite", "TestSuite"), name, cases)
    V.ensure("making a suite returns normally", r.ok)
    ensure_pointwise(V, "a suite prepends its path to every test, in order", r.value.cases, cases, rels)


@contract("testsuite.drop_prefix")
def drop(V):
    cases = V.list(PAIR, "cases")
    prefix = V.path("prefix")
    full = z3.Concat(prefix.t, Str("/"))
    arg = prefix if V.choose(2, "trailing slash") == 0 else prefix + "/"
    n = z3.Length(full)
    under = lambda e: z3.PrefixOf(full, PyVal.vs(PyVal.t2a(e)))
    cut = lambda e: PyVal.VStr(z3.SubString(PyVal.vs(PyVal.t2a(e)), n, z3.Length(PyVal.vs(PyVal.t2a(e))) - n))
    as_list = Filt(V, cases, under, lambda e: PyVal.VList(s_snoc(s_snoc(s_empty, cut(e)), PyVal.t2b(e))))
    as_tuple = Filt(V, cases, under, lambda e: PyVal.VTup2(cut(e), PyVal.t2b(e)))
    filt_hints(V, as_list, as_tuple)
    r = V.run(V.mod("testsuite").drop_prefix, arg, V.new(V.cls("tests", "Tests"), cases=cases))
    V.ensure("dropping a prefix returns normally", r.ok)
    out = r.value.cases.toterm()
    V.ensure("exactly the tests under the prefix, in order, with the prefix and its '/' removed",
             V.sym(z3.Or(out == as_list.all(), out == as_tuple.all())))


@contract("tests.Tests.all_names")
def names(V):
    cases = V.list(PAIR, "cases")
    rels = {"name": lambda a, b: a == PyVal.t2a(b)}
    pointwise_hints(V, rels)
    r = V.run(V.new(V.cls("tests", "Tests"), cases=cases).all_names)
    V.ensure("listing names returns normally", r.ok)
    ensure_pointwise(V, "the names of all tests, in order", r.value, cases, rels)


@contract("review.create_index")
def index(V):
    names = V.list(StrT, "names")
    d = V.path("dir")
    V.io_ok = True
    ix = Index(V, names, z3.Concat(d.t, Str("/index.md")))
    index_hints(V, ix)
    r = V.run(V.mod("review").create_index, d, names)
    V.ensure("writing the index returns normally", r.ok)
    V.ensure("the index is the heading and, for every test in order, one link nested under its path components", V.sym(ix.text() == ix.final()))


class Suite:
    def setup_parser(self, parser):
        pass

    def exec_parsed(self, root, parsed, cache=None, extra_default_config={}, setup=None):
        self.asked.append((root, parsed))
        return 0


@contract("cli.setup_test_suite", "cli.exec_parsed", "cli.main")
def project(V):
    """the command line works on all the tests of all test directories, merged in their order"""
    cli = V.mod("cli")
    paths = [["a", "b", "c"], ["a"]][V.choose(2, "directories")]
    config = {"test_paths": ",".join(paths)} if V.choose(2, "configured") == 1 else {}
    if "test_paths" not in config:
        paths = ["test", "book", "run"]
    root = "books"
    if V.choose(2, "books directory configured") == 1:
        root = config["books_path"] = V.path("root")
    found = {}
    want = s_empty
    for p in paths:
        found[p] = V.list(AnyT, "tests of " + p)
        want = s_app(want, found[p].toterm())
    suite = Suite()
    suite.asked = []

    class Parsed:
        def __contains__(self, name):
            return hasattr(self, name)
    parsed = Parsed()

    class Parser:
        def __init__(self, **k):
            pass

        def parse_args(self, args=None):
            return parsed

        def set_defaults(self, exec):
            parsed.exec = exec

    def merge(ts):
        V.ensure("all tests of all directories are merged, in order", V.sym(ts.toterm() == want))
        return suite
    V.patch(cli.argparse, "ArgumentParser", Parser)
    V.patch(cli.argcomplete, "autocomplete", lambda parser: None)
    V.patch_fn("cli", "get_default_config", lambda: config)
    V.patch_fn("cli", "include_sys_path", lambda: None)
    V.patch_fn("cli", "detect_tests", lambda path: found[path])
    V.patch_fn("cli", "detect_setup", lambda path: None)
    V.patch(cli.bt, "merge_tests", merge)
    r = V.run(cli.main, [])
    V.ensure("the invocation ends normally", r.ok)
    V.ensure("the merged tests are asked", V.both(len(suite.asked) == 1, V.eq(suite.asked[0][0], root), suite.asked[0][1] is parsed))
