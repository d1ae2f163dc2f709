import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C12 import *

PAIR = TupT(StrT, AnyT)


class AnyCache:
    """contract of an in-memory cache (a dictionary, LruCache, NoCache): it holds the value last written, unless it dropped it"""

    def __init__(self, V, P):
        self.V, self.P = V, P
        self.held = V.arr(z3.Const("held0", z3.ArraySort(PyVal, z3.BoolSort())), "held")
        self.vals = V.arr(z3.Const("vals0", z3.ArraySort(PyVal, PyVal)), "values")

    def __contains__(self, k):
        return self.V.sym(z3.Select(self.held.term, pack(k)))

    def __getitem__(self, k):
        if k in self:
            return unpack(z3.Select(self.vals.term, pack(k)), AnyT)
        return None

    def __setitem__(self, k, v):
        old = z3.Select(self.held.term, self.P)
        self.vals.term = z3.Store(self.vals.term, pack(k), pack(v))
        self.held.term = self.V.e.const("held", z3.ArraySort(PyVal, z3.BoolSort()))
        self.V.e.fact(z3.Implies(z3.Select(self.held.term, self.P), z3.Or(old, self.P == pack(k))))


class Store:
    """the results stored so far, seen at one arbitrary path P"""

    def __init__(self, V, path):
        self.V, self.path = V, path
        self.P = pack(path)
        self.cache = AnyCache(V, self.P)
        self.ever = V.arr(z3.Const("ever0", z3.ArraySort(PyVal, z3.BoolSort())), "stored at all")
        self.stored = V.arr(z3.Const("stored0", z3.ArraySort(PyVal, PyVal)), "stored value")

    def inv(self):
        P, v = self.P, z3.Select(self.stored.term, self.P)
        f = z3.Select(self.V.fs.cell.term, self.path.t)
        was = z3.Select(self.ever.term, P)
        return z3.And(z3.Implies(z3.Select(self.cache.held.term, P), z3.And(was, z3.Select(self.cache.vals.term, P) == v)),
                      f == z3.If(z3.And(was, v != PyVal.VNone), PyVal.VTup1(v), PyVal.VNone))


def test_run(V, cases, store):
    """a TestRun over the given cases"""
    out = V.path("out")
    tests = V.new(V.cls("tests", "Tests"), cases=cases)
    return out, V.new(V.cls("testrun", "TestRun"), tests=tests, out_dir=out, cache=store.cache)


class Case:
    def __init__(self, run, name):
        self.run = run
        self.name = name


@contract("testrun.TestRun.save_test_result", "tests.Tests.test_result_path")
def save(V):
    V.io_ok = True
    s = Store(V, V.str("path"))
    out, run = test_run(V, VList(conc=[]), s)
    V.assume(V.sym(s.inv()))
    name, v = V.str("case"), V.any("result")
    V.assume(V.sym(z3.Not(z3.PrefixOf(Str("/"), name.t))))
    k = pack(out + "/" + name + ".bin")
    V.assume(V.neg(V.fs.isdir(out + "/" + name + ".bin")))
    r = V.run(run.save_test_result, name, v)
    V.ensure("saving a result returns normally", r.ok)
    s.ever.term = z3.Store(s.ever.term, k, z3.BoolVal(True))
    s.stored.term = z3.Store(s.stored.term, k, pack(v))
    V.ensure("memory and disk hold the result last stored, and those of other tests are untouched", V.sym(s.inv()))


@contract("testrun.TestRun.get_test_result", "tests.Tests.test_result_path")
def get(V):
    V.io_ok = True
    cases = V.list(PAIR, "cases")
    method = V.any("method")
    matches = z3.Function("matches", PyVal, PyVal, z3.BoolSort())
    V.patch_fn("testrun", "match_method", lambda a, b: V.sym(matches(pack(a), pack(b))))
    V.assume(V.sym(forall_in(cases, lambda e: z3.Not(z3.PrefixOf(Str("/"), PyVal.vs(PyVal.t2a(e)))))))
    fst = z3.Const("first", z3.IntSort())
    n = s_len(cases.toterm())
    first_facts(V, cases, fst, lambda e: matches(pack(method), PyVal.t2b(e)))
    found = fst < n
    name = mkstr(PyVal.vs(PyVal.t2a(s_nth(cases.toterm(), fst))))
    out = V.path("out")
    path = out + "/" + name + ".bin"
    s = Store(V, path)
    V.assume(V.sym(s.inv()))
    first_hints(V, cases, fst)
    run = V.new(V.cls("testrun", "TestRun"), tests=V.new(V.cls("tests", "Tests"), cases=cases), out_dir=out, cache=s.cache)
    r = V.run(run.get_test_result, Case(run, V.str("case")), method)
    was, v = z3.Select(s.ever.term, s.P), z3.Select(s.stored.term, s.P)
    V.ensure("a dependency without a stored result is an error", V.implies(V.both(V.sym(found), V.sym(z3.Not(was))), V.neg(r.ok)))
    V.ensure("a stored result is returned", V.implies(V.both(V.sym(found), V.sym(was), V.sym(v != PyVal.VNone)), r.ok))
    V.ensure("a test that is not there is reported as not found", V.implies(V.sym(z3.Not(found)), r.ok))
    if r.ok:
        V.ensure("found exactly when a test matches", V.iff(V.sym(found), r.value[0]))
        V.ensure("the value is the one last stored by the matching test, from memory and from disk", V.implies(V.sym(found), V.sym(pack(r.value[1]) == v)))
    V.ensure("looking a result up changes no stored result", V.sym(s.inv()))


class Fn:
    """a test function as the decorators see it"""

    def __init__(self, func=None, obj=None, original=None):
        if func is not None:
            self.__func__ = func
        if obj is not None:
            self.__self__ = obj
        if original is not None:
            self._original_function = original


@contract("testrun.match_method", "testrun.method_identity", "dependencies.get_decorated_attr")
def match(V):
    """the same function, and the same instance unless the sought method is unbound; through any nesting of decorators (here: up to 2)"""
    mm = V.mod("testrun").match_method
    f, g = Fn(), Fn()
    a, b = Fn(), Fn()

    def method(label):
        plain = f if V.choose(2, label + " function") == 0 else g
        o = V.choose(3, label + " instance")
        obj = None if o == 0 else (a if o == 1 else b)
        m = plain if o == 0 else Fn(plain, obj)
        if o != 0:
            for i in range(V.choose(3, label + " decorators")):
                m = Fn(original=m)
        return plain, obj, m
    pf, po, p = method("sought")
    qf, qo, q = method("test")
    r = V.run(mm, p, q)
    V.ensure("matching returns normally", r.ok)
    V.ensure("matches exactly the same function of the same instance, or of any when unbound",
             V.iff(r.value, pf is qf and (po is None or po is qo)))


class Bound:
    def __init__(self, index):
        self.index = index


class Dep:
    """a declared test dependency"""

    def __init__(self, index):
        self.index = index

    def __get__(self, obj, cls):
        b = Bound(self.index)
        b.obj = obj
        return b


class Book:
    """stands for booktest.TestBook"""


def dependencies(V):
    """a list of declared dependencies of any length; the j-th is a resource or a test, its results are functions of j"""
    D = Deps(V)
    res = V.cls("dependencies", "Resource")
    deps = V.list(AnyT, "dependencies")

    def dep(i):
        if V.sym(D.is_resource(i)):
            return V.new(res, value=unpack(D.value(i), AnyT), identifier="id")
        return Dep(i)
    V.itemview(deps, dep)
    D.n = s_len(deps.toterm())
    return D, deps


class Results:
    """contract of TestRun.get_test_result: (found, value) of the j-th dependency, bound to an instance or not"""

    def __init__(self, V, D, me):
        self.V, self.D, self.me = V, D, me

    def get_test_result(self, case, method):
        V, D = self.V, self.D
        V.ensure("the result is looked up for the running case", case is self.V.state["case"])
        if isinstance(method, Bound):
            V.ensure("the result is looked up for the running instance", method.obj is self.me)
            ok, v = D.bfound(method.index), D.bresult(method.index)
        else:
            ok, v = D.found(method.index), D.result(method.index)
        if V.sym(ok):
            return True, unpack(v, AnyT)
        return False, None


def ensure_called(V, D, r, base, bound):
    """one argument per dependency in order, after the first arguments; nothing called when one has no result"""
    st = V.state
    good = lambda j: z3.Or(D.is_resource(j), D.found(j), D.bfound(j)) if bound else z3.Or(D.is_resource(j), D.found(j))
    want = lambda j: z3.If(D.is_resource(j), D.value(j), z3.If(z3.And(bound, D.bfound(j)), D.bresult(j), D.result(j)))
    x = D.probe
    there = V.sym(z3.And(0 <= x, x < D.n))
    if st["args"] is None:
        V.ensure("the test is called unless a dependency has no result", V.neg(r.ok))
    else:
        a = st["args"]
        t = as_seq(a)
        V.ensure("one argument per declared dependency", V.sym(s_len(t) == base + D.n))
        V.ensure("the arguments are the dependencies' values in declaration order", V.implies(there, V.sym(s_nth(t, base + x) == want(x))))
        V.ensure("a dependency without a result is an error", V.implies(there, V.sym(good(x))))
        V.ensure("the case is passed", V.sym(s_nth(t, base - 1) == pack(st["case"])))
        V.ensure("keyword arguments are passed on", V.eq(st["kwargs"]["key"], st["key"]))
        V.ensure("the test's result is passed through", V.both(r.ok, r.ok and r.value is st["result"]))


def test_function(V):
    st = V.state
    st["args"], st["kwargs"] = None, None
    st["result"] = V.any("result")
    st["key"] = V.any("key")

    def func(*args, **kwargs):
        st["args"] = args
        st["kwargs"] = kwargs
        return st["result"]

    async def afunc(*args, **kwargs):
        return func(*args, **kwargs)
    return afunc if V.choose(2, "async") == 1 else func


@contract("dependencies.call_function_test", "coroutines.maybe_async_call")
def function_arguments(V):
    D, deps = dependencies(V)
    V.state["case"] = Case(Results(V, D, None), V.str("name"))
    f = test_function(V)
    args_hints(V, D, 1, False, V.state["case"], None)
    r = V.run(V.mod("dependencies").call_function_test, deps, f, V.state["case"], {"key": V.state["key"]})
    ensure_called(V, D, r, 1, False)


@contract("dependencies.call_class_method_test", "coroutines.maybe_async_call")
def method_arguments(V):
    D, deps = dependencies(V)
    me = Book()
    V.state["case"] = Case(Results(V, D, me), V.str("name"))
    f = test_function(V)
    args_hints(V, D, 2, True, V.state["case"], me)
    r = V.run(V.mod("dependencies").call_class_method_test, deps, f, me, V.state["case"], {"key": V.state["key"]})
    ensure_called(V, D, r, 2, True)
    if V.state["args"] is not None:
        a = V.state["args"]
        V.ensure("the instance is passed", V.sym(s_nth(as_seq(a), 0) == pack(me)))


@contract("dependencies.depends_on")
def declaration(V):
    """the decorator passes the declared dependencies, in order, as function or method"""
    st = V.state
    V.patch(V.prog.pkg, "TestBook", Book)
    mod = V.mod("dependencies")
    res = mod.Resource
    st["seen"] = None

    async def fn(deps, func, case, kwargs):
        st["seen"] = ("function", deps, func, None, case, kwargs)
        return st["r"]

    async def me(deps, func, self, case, kwargs):
        st["seen"] = ("method", deps, func, self, case, kwargs)
        return st["r"]
    V.patch_fn("dependencies", "call_function_test", fn)
    V.patch_fn("dependencies", "call_class_method_test", me)
    st["r"] = V.any("r")
    n = V.choose(4, "number of dependencies")
    deps = []
    for i in range(n):
        deps.append(V.new(res, value=V.any("v"), identifier="id") if V.choose(2, "resource") == 1 else Dep(i))
    f = test_function(V)
    w = mod.depends_on(*deps)(f)
    case, book = Case(None, V.str("name")), Book()
    how = V.choose(2, "method")
    r = V.run(w, case, key=st["key"]) if how == 0 else V.run(w, book, case, key=st["key"])
    V.ensure("the call returns", V.both(r.ok, r.ok and r.value is st["r"]))
    kind, ds, func, self, c, kw = st["seen"]
    V.ensure("all declared dependencies are passed", len(ds) == n)
    for i in range(n):
        V.ensure("in declaration order", ds[i] is deps[i])
    V.ensure("called as what it is", V.both(kind == ("method" if how == 1 else "function"), c is case, func is f, self is (book if how == 1 else None)))


@contract("testrun.TestRun.run_case")
def stored_when(V):
    """the returned value is stored exactly when the case passed or differed"""
    st = V.state
    V.io_ok = True
    Res = V.cls("reports", "TestResult")
    verdict = V.enum(Res, "verdict")
    st["ended"] = False

    class TCR:
        def __init__(self, run, case_path, config, output):
            self.took_ms = 1.0

        def start(self, title):
            pass

        def iln(self, *a):
            return self

        def fail(self):
            return self

        def end(self):
            st["ended"] = True
            return verdict, None
    V.patch_fn("testrun", "TestCaseRun", TCR)
    st["saved"] = []

    def save(self, path, v):
        st["saved"].append((path, v))
    run = V.new(V.cls("testrun", "TestRun"), config={}, output=None)
    V.patch(V.cls("testrun", "TestRun"), "save_test_result", save)
    value = V.any("value")
    name = V.str("name")

    def case(t):
        return value

    async def acase(t):
        return value
    r = V.run(run.run_case, name, acase if V.choose(2, "async") == 1 else case)
    V.ensure("running a case returns normally", r.ok)
    keep = V.either(verdict == Res.OK, verdict == Res.DIFF)
    V.ensure("the value is stored exactly when the case passed or differed", V.iff(keep, len(st["saved"]) == 1))
    if len(st["saved"]) == 1:
        V.ensure("it is stored under the case's name", V.both(V.eq(st["saved"][0][0], name), st["saved"][0][1] is value))


from contracts.C13 import lru as bounded_cache, no_cache
