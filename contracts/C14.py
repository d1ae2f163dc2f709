from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C14 import *


class FakeRun:
    """the parts of TestCaseRun the decorators use"""

    def __init__(self, V, config):
        self.V = V
        self.exp_dir_name = V.path("exp")
        self.out = V.path("out")
        self.config = config

    def file(self, name):
        return self.out + "/" + name

    def h1(self, title):
        return self

    def tln(self, text):
        return self


class Book:
    """stands for booktest.TestBook"""


def call(V, wrapper, t):
    """a decorated test is called as a function or as a method of a test book"""
    V.patch(V.prog.pkg, "TestBook", Book)
    if V.choose(2, "method") == 0:
        return V.run(wrapper, t)
    return V.run(wrapper, Book(), t)


def test_body(V, during):
    """a test: looks at the environment, leaves it in any state, and ends in any way"""
    st = V.state

    def body(*args):
        during()
        st["ran"] = True
        V.environ.assign(V.dict(StrT, StrT, "environment after the test"))
        st["left"] = V.environ.toterm()
        if V.choose(2, "how the test ends") == 1:
            raise KeyboardInterrupt()
        return st["result"]
    st["ran"] = False
    st["result"] = V.any("result")
    return body


def ensure_restored(V, x, managed, e0):
    """x is an arbitrary variable"""
    now = V.environ.toterm()
    m = V.sym(managed)
    V.ensure("every managed variable has the value it had before", V.implies(m, V.sym(opt(now, x) == opt(e0, x))))
    base = V.state["left"] if V.state["ran"] else e0
    V.ensure("other variables are left as the test left them", V.either(m, V.sym(opt(now, x) == opt(base, x))))


def ensure_outcome(V, r):
    """the test's own result or exception comes out"""
    if V.state["ran"] and r.ok:
        V.ensure("the result of the test is returned", r.value is V.state["result"])


@contract("env.SnapshotEnv.__init__", "env.SnapshotEnv.start", "env.SnapshotEnv._restore", "env.SnapshotEnv.stop", "env.SnapshotEnv.__enter__",
          "env.SnapshotEnv.__exit__", "env.snapshot_env")
def snapshot(V):
    V.io_ok = True
    X = V.str("probe")
    x = PyVal.VStr(X.t)
    e0 = V.environ.toterm()
    V.environ.get(X)
    config = {"refresh_snapshots": V.bool("refresh"), "complete_snapshots": V.bool("complete")}
    t = FakeRun(V, config)
    names = V.list(StrT, "names")
    refresh = config.get("refresh_snapshots", False)
    complete = config.get("complete_snapshots", False)
    capture = V.either(refresh, complete)
    rec = V.dict(StrT, OptT(StrT), "recorded")
    path = t.exp_dir_name + "/.env.json"
    stored = V.fs.exists(path)
    V.patch(V.mod("env").json, "load", lambda f: rec)
    R = rec.toterm()
    has = z3.And(bterm(stored), z3.Not(bterm(refresh)), t_mem(d_dom(R), x))
    value = z3.If(has, d_get(R, x), opt(e0, x))
    managed = s_mem(names.toterm(), x)
    env_hints(V, x, e0, [("recorded", value)], [("recorded or captured", z3.Or(has, bterm(capture)))])

    def during():
        now = V.environ.toterm()
        nm = V.sym(managed)
        V.ensure("while the test runs, a recorded variable has exactly the recorded value",
                 V.implies(V.both(nm, V.sym(has)), V.sym(opt(now, x) == d_get(R, x))))
        V.ensure("a variable captured anew keeps its value", V.either(V.sym(has), V.sym(opt(now, x) == opt(e0, x))))
        V.ensure("a variable that is not named is not changed", V.either(nm, V.sym(opt(now, x) == opt(e0, x))))
        V.ensure("the test runs only when every variable is recorded or captured", V.implies(nm, V.either(capture, V.sym(has))))
    body = test_body(V, during)
    r = call(V, V.mod("env").snapshot_env(*names)(body), t)
    ensure_restored(V, x, managed, e0)
    ensure_outcome(V, r)


@contract("env.MockEnv.__init__", "env.MockEnv.start", "env.MockEnv.stop", "env.MockEnv.__enter__", "env.MockEnv.__exit__", "env.mock_env")
def mock(V):
    X = V.str("probe")
    x = PyVal.VStr(X.t)
    e0 = V.environ.toterm()
    V.environ.get(X)
    env = V.dict(StrT, OptT(StrT), "mocked")
    R = env.toterm()
    t = FakeRun(V, {})
    managed = t_mem(d_dom(R), x)
    env_hints(V, x, e0, [("mocked", d_get(R, x))])

    def during():
        now = V.environ.toterm()
        nm = V.sym(managed)
        V.ensure("while the test runs, a mocked variable has exactly the given value", V.implies(nm, V.sym(opt(now, x) == d_get(R, x))))
        V.ensure("a variable that is not mocked is not changed", V.either(nm, V.sym(opt(now, x) == opt(e0, x))))
    body = test_body(V, during)
    r = call(V, V.mod("env").mock_env(env)(body), t)
    V.ensure("the test is run", V.state["ran"])
    ensure_restored(V, x, managed, e0)
    ensure_outcome(V, r)


@contract("env.MockMissingEnv.__init__", "env.MockMissingEnv.start", "env.MockMissingEnv.stop", "env.MockMissingEnv.__enter__",
          "env.MockMissingEnv.__exit__", "env.mock_missing_env")
def mock_missing(V):
    X = V.str("probe")
    x = PyVal.VStr(X.t)
    e0 = V.environ.toterm()
    V.environ.get(X)
    env = V.dict(StrT, OptT(StrT), "mocked")
    R = env.toterm()
    config = {"refresh_snapshots": V.bool("refresh"), "complete_snapshots": V.bool("complete")}
    t = FakeRun(V, config)
    managed = t_mem(d_dom(R), x)
    value = z3.If(t_mem(d_dom(e0), x), d_get(e0, x), d_get(R, x))
    env_hints(V, x, e0, [("mocked", value)])

    def during():
        now = V.environ.toterm()
        nm = V.sym(managed)
        V.ensure("a variable that has a value keeps it, a missing one has the given value", V.implies(nm, V.sym(opt(now, x) == value)))
        V.ensure("a variable that is not mocked is not changed", V.either(nm, V.sym(opt(now, x) == opt(e0, x))))
    body = test_body(V, during)
    r = call(V, V.mod("env").mock_missing_env(env)(body), t)
    V.ensure("the test is run", V.state["ran"])
    ensure_restored(V, x, managed, e0)
    ensure_outcome(V, r)
