from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C19 import *
from contracts.exec_common import *


class Gen:
    """a setup/teardown generator: the first step is the setup, the second the teardown"""

    def __init__(self, phase):
        self.phase = phase

    def __next__(self):
        self.phase.v = self.phase.v + 1
        if self.phase.v > 1:
            raise StopIteration()
        return None


def guard(V):
    st = V.state
    phase = V.cell(0, "phase", IntT)
    made = V.cell(0, "made", IntT)
    st["phase"], st["made"], st["ran"], st["raised"] = phase, made, 0, None

    def generator():
        made.v = made.v + 1
        return Gen(phase)
    return generator


def body(V, kinds=3):
    st = V.state
    st["result"] = V.any("result")

    def run(*args, **kwargs):
        st["args"] = args
        st["kwargs"] = kwargs
        V.ensure("the guarded code runs after the setup part and before the teardown part", st["phase"].v == 1)
        st["ran"] = st["ran"] + 1
        how = V.choose(kinds, "how the guarded code ends")
        if how == 1:
            st["raised"] = ValueError("boom")
            raise st["raised"]
        if how == 2:
            st["raised"] = KeyboardInterrupt()
            raise st["raised"]
        return st["result"]
    return run


def ensure_guarded(V):
    st = V.state
    V.ensure("one generator is created", st["made"].v == 1)
    V.ensure("setup and teardown run exactly once each", st["phase"].v == 2)
    V.ensure("the guarded code runs once", st["ran"] == 1)


@contract("utils.SetupTeardown.__init__", "utils.SetupTeardown.__enter__", "utils.SetupTeardown.__exit__", "utils.setup_teardown",
          "coroutines.maybe_async_call")
def decorated(V):
    st = V.state
    gen = guard(V)
    f = body(V)

    async def af(*args, **kwargs):
        return f(*args, **kwargs)
    g = af if V.choose(2, "async") == 1 else f
    w = V.mod("utils").setup_teardown(gen)(g)
    a, b, k = V.any("a"), V.any("b"), V.any("k")
    r = V.run(w, a, b, key=k)
    ensure_guarded(V)
    V.ensure("the arguments are passed on", V.both(st["args"][0] is a, st["args"][1] is b))
    V.ensure("the keyword arguments are passed on", V.both(len(st["kwargs"]) == 1, st["kwargs"]["key"] is k))
    if st["raised"] is None:
        V.ensure("the result is passed through", V.both(r.ok, r.ok and r.value is st["result"]))
    else:
        V.ensure("the exception is passed through", V.both(V.neg(r.ok), r.value is st["raised"]))


@contract("detection.BookTestSetup.__init__", "detection.BookTestSetup.setup_teardown", "runs.run_tests")
def sequential_run(V):
    st = V.state
    gen = guard(V)
    f = body(V)
    tr = V.mod("runs").TestRun
    Res = V.cls("reports", "TestResult")
    st["result"] = V.enum(Res, "result")
    V.patch(tr, "__init__", lambda self, *a: None)
    V.patch(tr, "run", lambda self: f())
    setup = V.mod("detection").BookTestSetup(gen)
    r = V.run(V.mod("runs").run_tests, V.path("exp"), V.path("out"), None, None, V.dict(StrT, AnyT, "config"), None, setup)
    ensure_guarded(V)
    if st["raised"] is None:
        V.ensure("the result is passed through", V.both(r.ok, r.ok and V.iff(V.eq(r.value, 0), st["result"] == Res.OK)))
    else:
        V.ensure("the exception is passed through", V.both(V.neg(r.ok), r.value is st["raised"]))


@contract("runs.RunBatch.__init__", "runs.RunBatch.__call__")
def batch(V):
    st = V.state
    gen = guard(V)
    f = body(V)
    V.io_ok = True
    tr = V.mod("runs").TestRun
    Res = V.cls("reports", "TestResult")
    st["result"] = V.enum(Res, "result")
    case = V.str("case")
    st["cases"] = None

    def init(self, exp_dir, out_dir, report_dir, tests, cases, config, cache, output=None):
        V.ensure("the batch runs its case", V.both(len(cases) == 1, V.eq(cases[0], case)))
    V.patch(tr, "__init__", init)
    V.patch(tr, "run", lambda self: f())
    setup = V.mod("detection").BookTestSetup(gen)
    b = V.mod("runs").RunBatch(V.path("exp"), V.path("out"), None, V.dict(StrT, AnyT, "config"), setup)
    r = V.run(b, case)
    ensure_guarded(V)
    if st["raised"] is None:
        V.ensure("the result is passed through", V.both(r.ok, r.ok and V.iff(V.eq(r.value, 0), st["result"] == Res.OK)))


@contract("utils.combine_decorators")
def combine(V):
    """the j-th decorator appends j to the value it gets; the decorated value must be 0,1,2,..."""
    n = V.int("n")
    V.assume(n >= 0)
    decs = V.list(AnyT, "decorators")
    V.assume(V.sym(s_len(decs.toterm()) == n.t))

    def dec(j):
        def apply(v):
            r = v.copy()
            r.append(mknum(j))
            return r
        return apply
    V.itemview(decs, dec)
    trace_hints(V, None)
    d = V.mod("utils").combine_decorators(*decs)
    r = V.run(d, VList(term=s_empty, et=IntT))
    V.ensure("decorating returns normally", r.ok)
    t = r.value.toterm()
    j = V.int("j")
    V.assume(0 <= j)
    V.ensure("every decorator is applied once", V.sym(s_len(t) == n.t))
    V.ensure("in the given order, the first innermost", V.sym(z3.Implies(j.t < n.t, s_nth(t, j.t) == PyVal.VInt(j.t))))


@contract("runs.parallel_run_tests", "runs.ParallelRunner.__init__")
def parallel_setup(V):
    """the parallel run hands the setup to the runner, and the runner to every batch"""
    V.io_ok = True
    runs = V.mod("runs")
    CR = V.cls("reports", "CaseReports")
    setup = V.mod("detection").BookTestSetup(None)
    seen = V.cell(0, "seen", IntT)
    reports = V.new(CR, cases=VList(conc=[]))

    class Stop(Exception):
        pass

    class Batch:
        def __init__(self, exp_dir, out_dir, tests, config, given):
            V.ensure("the batch gets the setup", given is setup)
            seen.v = seen.v + 1

    class Runner:
        def __init__(self, exp_dir, out_dir, tests, cases, config, given, reports):
            V.ensure("the runner gets the setup", given is setup)
            seen.v = seen.v + 1
            raise Stop()
    config = V.dict(StrT, AnyT, "config")
    if V.choose(2, "which") == 0:
        V.patch(CR, "of_dir", staticmethod(lambda d: reports))
        V.patch(CR, "cases_to_done_and_todo", lambda self, cases, conf: (VList(conc=[]), cases))
        V.patch_fn("runs", "prepare_batch_dir", lambda d: None)
        V.patch_fn("runs", "ParallelRunner", Runner)
        V.run(runs.parallel_run_tests, V.path("exp"), V.path("out"), None, V.list(StrT, "cases"), config, setup)
    else:
        V.patch_fn("runs", "RunBatch", Batch)
        config = {"parallel": "3"} if V.choose(2, "processes given") == 1 else {}
        V.run(runs.ParallelRunner, V.path("exp"), V.path("out"), None, VList(conc=[]), config, setup, reports)
    V.ensure("the setup is handed over", seen.v == 1)


@contract("tests.Tests.exec_parsed", "cli.setup_test_suite", "cli.exec_parsed", "cli.main", "detection.BookTestSetup.__init__")
def invocation(V):
    """the setup of the project reaches the run"""
    tests, cli = V.mod("tests"), V.mod("cli")
    CR = V.cls("reports", "CaseReports")
    Setup = V.cls("detection", "BookTestSetup")
    V.io_ok = True
    st = V.state
    st["ran"] = 0
    setup = V.new(Setup)
    parsed = Parsed()
    parsed.p = V.choose(2, "parallel") == 1
    parsed.cov = V.choose(2, "coverage") == 1
    config = V.dict(StrT, AnyT, "defaults")
    config["parallel"] = False
    config["test_paths"], config["books_path"] = "test,book", "books"
    where = V.choose(3, "setup is in")

    def ran(given):
        st["ran"] = st["ran"] + 1
        if where == 2:
            V.ensure("a project without setup has an empty one", isinstance(given, Setup))
        else:
            V.ensure("the run gets the setup of the project", given is setup)
        return 0

    class Parser:
        def __init__(self, **k):
            pass

        def parse_args(self, args=None):
            return parsed

        def set_defaults(self, exec):
            parsed.exec = exec
    for m in (tests, cli):
        V.patch(m.argparse, "ArgumentParser", Parser)
    V.patch(cli.argcomplete, "autocomplete", lambda parser: None)
    V.patch_fn("tests", "get_default_config", lambda: config)
    V.patch_fn("cli", "get_default_config", lambda: config)
    V.patch_fn("cli", "include_sys_path", lambda: None)
    V.patch_fn("cli", "detect_tests", lambda path: [])
    V.patch_fn("cli", "detect_setup", lambda path: setup if where < 2 and path == ("test", "book")[where] else None)
    V.patch_fn("tests", "run_tests", lambda exp_dir, out_dir, tests, cases, conf, cache, setup: ran(setup))
    V.patch_fn("tests", "parallel_run_tests", lambda exp_dir, out_dir, tests, cases, conf, setup: ran(setup))
    V.patch_fn("tests", "Coverage", Cov)
    V.patch(tests.os, "listdir", lambda d: VList(conc=[]))
    V.patch(tests.os.path, "exists", lambda p: False)
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=VList(conc=[]))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cases, config: (VList(conc=[]), cases))
    V.patch(tests.Tests, "selected_names", lambda self, selection, cache_out_dir: V.list(StrT, "cases"))
    V.patch(tests.Tests, "setup_parser", lambda self, parser: None)
    V.patch(cli.bt, "merge_tests", lambda ts: V.new(tests.Tests, cases=VList(conc=[])))
    r = V.run(cli.main, VList(conc=[]))
    V.ensure("the invocation ends normally", r.ok)
    V.ensure("the tests are run once", st["ran"] == 1)


@contract("detection.detect_setup", "detection.parse_booktest_setup", "detection.BookTestSetup.setup_teardown")
def detected(V):
    """the setup of a directory is the process_setup_teardown of its __booktest__.py"""
    det = V.mod("detection")
    st = V.state
    gen = guard(V)
    has = V.choose(2, "defines a setup") == 1

    def process_setup_teardown():
        return gen()

    def other():
        return None

    class Module:
        pass
    module = Module()
    module.helper = other
    if has:
        module.process_setup_teardown = process_setup_teardown
    V.patch(det.os.path, "exists", lambda p: True)
    V.patch(det.os, "walk", lambda p: [(p, [], ["x_test.py", "__booktest__.py", "y.py"])])
    V.patch(det.importlib, "import_module", lambda name: module)
    r = V.run(det.detect_setup, "test")
    V.ensure("detecting the setup returns normally", r.ok)
    f = body(V)
    if not has:
        st["phase"].v = 1
    r2 = V.run(guarded, r.value, f)
    if has:
        ensure_guarded(V)
    else:
        V.ensure("without a setup the code just runs", st["ran"] == 1)
    if st["raised"] is None:
        V.ensure("the result is passed through", V.both(r2.ok, r2.ok and r2.value is st["result"]))
    else:
        V.ensure("the exception is passed through", V.both(V.neg(r2.ok), r2.value is st["raised"]))


def guarded(setup, f):
    with setup.setup_teardown():
        return f()
