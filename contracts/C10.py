import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C10 import *

PAIR = TupT(StrT, AnyT)


class Method:
    """a test method or function as the selection code sees it"""

    def __init__(self, self_type=None, obj=None, original=None):
        if self_type is not None:
            self._self_type = self_type
        if obj is not None:
            self.__self__ = obj
        if original is not None:
            self._original_function = original

    def __get__(self, obj, cls):
        return ("bound", self, obj)


class BookA:
    pass


class BookB:
    pass


class BookA2(BookA):
    pass


@contract("dependencies.bind_dependent_method_if_unbound", "dependencies.get_decorated_attr")
def bind(V):
    """a dependency declared on the class of the instance is taken from that instance, also through decorators (here: up to 2)"""
    f = V.mod("dependencies").bind_dependent_method_if_unbound

    def decorated(m, label):
        for i in range(V.choose(3, label + " decorators")):
            m = Method(original=m)
        return m
    me = [None, BookA(), BookB(), BookA2()][V.choose(4, "instance")]
    ty = [None, BookA, BookB][V.choose(3, "class of the dependency")]
    m = decorated(Method(obj=me), "method")
    d = decorated(Method(self_type=ty), "dependency")
    r = V.run(f, m, d)
    V.ensure("binding returns normally", r.ok)
    own = me is not None and ty is not None and isinstance(me, ty)
    if own:
        V.ensure("a dependency on the own class is bound to the instance", V.both(r.value[0] == "bound", r.value[1] is d, r.value[2] is me))
    else:
        V.ensure("any other dependency is left as it is", r.value is d)


@contract("tests.Tests.case_by_method")
def by_method(V):
    cases = V.list(PAIR, "cases")
    method = V.any("method")
    matches = z3.Function("matches", PyVal, PyVal, z3.BoolSort())
    V.patch_fn("tests", "match_method", lambda a, b: V.sym(matches(pack(a), pack(b))))
    fst = z3.Const("first", z3.IntSort())
    first_facts(V, cases, fst, lambda e: matches(pack(method), PyVal.t2b(e)))
    not_before(V, fst)
    r = V.run(V.new(V.cls("tests", "Tests"), cases=cases).case_by_method, method)
    V.ensure("looking a method up returns normally", r.ok)
    t = cases.toterm()
    V.ensure("the name of the first test that matches, or nothing", V.sym(pack(r.value) == z3.If(fst < s_len(t), PyVal.t2a(s_nth(t, fst)), PyVal.VNone)))


@contract("tests.Tests.get_case")
def get_case(V):
    cases = V.list(PAIR, "cases")
    name = V.str("name")
    fst = z3.Const("first", z3.IntSort())
    first_facts(V, cases, fst, lambda e: PyVal.t2a(e) == pack(name))
    not_before(V, fst)
    r = V.run(V.new(V.cls("tests", "Tests"), cases=cases).get_case, name)
    V.ensure("looking a name up returns normally", r.ok)
    t = cases.toterm()
    V.ensure("the first test of that name, or nothing", V.sym(pack(r.value) == z3.If(fst < s_len(t), PyVal.t2b(s_nth(t, fst)), PyVal.VNone)))


@contract("tests.Tests.method_dependencies", "tests.Tests.test_result_exists", "tests.Tests.test_result_path")
def direct(V):
    """the direct dependencies that must run: those that are tests of the project and are selected or have no cached result"""
    Tests = V.cls("tests", "Tests")
    sel = V.any("selection")
    bound = z3.Function("bound", PyVal, PyVal, PyVal)
    case_of = z3.Function("case_of", PyVal, PyVal)
    chosen = z3.Function("chosen", PyVal, z3.BoolSort())
    V.patch_fn("tests", "bind_dependent_method_if_unbound", lambda m, d: unpack(bound(pack(m), pack(d)), AnyT))

    def by_method(self, m):
        t = case_of(pack(m))
        V.e.fact(z3.Or(t == PyVal.VNone, z3.And(PyVal.is_VStr(t), z3.Not(z3.PrefixOf(Str("/"), PyVal.vs(t))))))
        if V.sym(t == PyVal.VNone):
            return None
        return mkstr(PyVal.vs(t))

    def is_selected(self, name, selection):
        V.ensure("the selection is the given one", selection is sel)
        return V.sym(chosen(pack(name)))
    V.patch(Tests, "case_by_method", by_method)
    V.patch(Tests, "is_selected", is_selected)
    has = V.choose(3, "declares dependencies")
    deps = V.list(AnyT, "dependencies")
    m = Method()
    if has != 0:
        m._dependencies = deps
    out = V.path("out")
    cached = V.choose(2, "uses cached results") == 1
    name = lambda e: case_of(bound(pack(m), e))
    missing = lambda n: V.fs.get(mkstr(z3.Concat(out.t, Str("/"), PyVal.vs(n), Str(".bin")))) == PyVal.VNone
    need = Filt(V, deps, lambda e: z3.And(name(e) != PyVal.VNone, z3.Or(chosen(name(e)), z3.BoolVal(not cached), missing(name(e)))), name)
    filt_hints(V, need)
    r = V.run(V.new(Tests, cases=VList(conc=[])).method_dependencies, m, sel, out if cached else None)
    V.ensure("finding the dependencies returns normally", r.ok)
    if has != 0:
        V.ensure("exactly the dependencies that are selected or have no cached result", V.sym(r.value.toterm() == need.all()))
    else:
        V.ensure("no dependencies", len(r.value) == 0)


@contract("lemma: order of a list")
def lemma(V):
    """the steps of the inductions behind the facts Order states"""
    lemma_steps(V)


@contract("tests.Tests.all_method_dependencies")
def transitive(V):
    Tests = V.cls("tests", "Tests")
    G = Graph(V)
    sel, out = V.any("selection"), V.any("out")
    m = V.any("method")
    orig = Tests.all_method_dependencies
    V.assume(V.sym(G.rank(pack(m)) >= 0))

    def same(selection, cache_out_dir):
        V.ensure("selection and cache are passed on", V.both(selection is sel, cache_out_dir is out))

    def direct(self, method, selection, cache_out_dir=None):
        same(selection, cache_out_dir)
        return VList(term=G.deps_of(pack(method)), et=StrT)

    def again(self, method, selection, cache_out_dir=None):
        same(selection, cache_out_dir)
        V.ensure("the recursion ends: a dependency is below the test that depends on it", V.sym(G.rank(pack(method)) < G.rank(pack(m))))
        return VList(term=G.all_of(pack(method)), et=StrT)
    V.patch(Tests, "method_dependencies", direct)
    V.patch(Tests, "all_method_dependencies", again)
    V.patch(Tests, "get_case", lambda self, name: unpack(G.case(pack(name)), AnyT))
    G.hints_transitive(m)
    r = V.run(orig, V.new(Tests, cases=VList(conc=[])), m, sel, out)
    V.ensure("collecting the dependencies returns normally", r.ok)
    L = r.value.toterm()
    e = G.e
    V.ensure("every dependency comes before a test that depends on it", V.sym(G.order(L)))
    V.ensure("all direct dependencies are there", V.sym(z3.Implies(s_mem(G.deps_of(pack(m)), e), s_mem(L, e))))
    V.ensure("nothing but dependencies is there", V.sym(z3.Implies(s_mem(L, e), G.reach(pack(m), e))))


@contract("tests.Tests.selected_names")
def selected(V):
    Tests = V.cls("tests", "Tests")
    G = Graph(V)
    sel, out = V.any("selection"), V.any("out")
    cases = V.list(PAIR, "cases")

    def is_selected(self, name, selection):
        V.ensure("the selection is the given one", selection is sel)
        return V.sym(G.chosen(pack(name)))

    def collect(self, method, selection, cache_out_dir=None):
        V.ensure("selection and cache are passed on", V.both(selection is sel, cache_out_dir is out))
        return VList(term=G.all_of(pack(method)), et=StrT)
    V.patch(Tests, "is_selected", is_selected)
    V.patch(Tests, "all_method_dependencies", collect)
    V.patch(Tests, "get_case", lambda self, name: unpack(G.case(pack(name)), AnyT))
    G.selected_facts(cases)
    G.hints_selected(cases)
    r = V.run(V.new(Tests, cases=cases).selected_names, sel, out)
    V.ensure("selecting returns normally", r.ok)
    L = r.value.toterm()
    q, y = G.q, G.y
    t = cases.toterm()
    name = PyVal.t2a(s_nth(t, q))
    V.ensure("every selected case is there", V.sym(z3.Implies(z3.And(0 <= q, q < s_len(t), G.chosen(name)), s_mem(L, name))))
    V.ensure("with a case, every dependency of it that must run is there", V.sym(z3.Implies(s_mem(L, y), s_mem(L, G.x))))
    V.ensure("and comes before it", V.sym(G.order(L)))
    V.ensure("nothing else is there", V.sym(z3.Implies(s_mem(L, G.e), G.needed(G.e))))
    V.ensure("no case is there twice", V.sym(G.once(L)))


class Parsed:
    """parsed command line with one arbitrary run"""
    i = I = v = L = f = c = u = a = s = S = cov = False
    md_viewer = diff_tool = cmd = None


@contract("tests.Tests.exec_parsed")
def invocation(V):
    """what is run is exactly the selected list; cached results count unless refreshing"""
    tests = V.mod("tests")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    st = V.state
    st["ran"], st["config"] = None, None
    config = V.dict(StrT, AnyT, "defaults")
    root = V.path("root")
    parsed = Parsed()
    parsed.r = V.choose(2, "refresh") == 1
    parsed.p = V.choose(2, "parallel") == 1
    sel = VList(conc=["test", "skip:test/x"]) if V.choose(2, "selection given") == 1 else "*"
    parsed.test_cases = sel
    result = V.list(StrT, "selected")
    refresh = V.sym(truthy_term(z3.If(t_mem(d_dom(config.toterm()), pack("refresh_sources")), d_get(config.toterm(), pack("refresh_sources")), PyVal.VBool(False))))
    V.assume(V.neg(V.sym(truthy_term(z3.If(t_mem(d_dom(config.toterm()), pack("coverage")), d_get(config.toterm(), pack("coverage")), PyVal.VBool(False))))))
    if sel == "*":
        config["default_tests"] = "a,b"

    def selected_names(self, selection, cache_out_dir=None):
        if sel == "*":
            V.ensure("without a selection, the configured default one", V.both(len(selection) == 2, selection[0] == "a", selection[1] == "b"))
        else:
            V.ensure("the selection of the command line", selection is sel)
        if parsed.r:
            V.ensure("refreshing ignores cached results", cache_out_dir is None)
        else:
            V.ensure("cached results are used unless refreshing", V.iff(V.neg(refresh), cache_out_dir is not None))
            if cache_out_dir is not None:
                V.ensure("cached results are those of the project", V.eq(cache_out_dir, root + "/.out"))
        return result

    def ran(cases, exp, out):
        V.ensure("one run", st["ran"] is None)
        st["ran"] = cases
        V.ensure("in the project's directories", V.both(V.eq(exp, root), V.eq(out, root + "/.out")))
        return 0
    V.patch_fn("tests", "get_default_config", lambda: config)
    V.patch_fn("tests", "run_tests", lambda exp_dir, out_dir, tests, cases, config, cache, setup: ran(cases, exp_dir, out_dir))
    V.patch_fn("tests", "parallel_run_tests", lambda exp_dir, out_dir, tests, cases, config, setup: ran(cases, exp_dir, out_dir))
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=VList(conc=[]))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cases, config: (VList(conc=[]), cases))
    V.patch(tests.Tests, "selected_names", selected_names)
    r = V.run(V.new(tests.Tests, cases=VList(conc=[])).exec_parsed, root, parsed)
    V.ensure("the invocation ends normally", r.ok)
    V.ensure("the selected cases, and no others, are run in their order", V.both(st["ran"] is not None, V.sym(st["ran"].toterm() == result.toterm())))


from contracts.C09 import selection as selection_by_name
