from pyvc.core import *
from pyvc.terms import *
from pyvc.lib import lines_of
from vclib import *
from contracts.exec_common import *
from hints.C21 import *


@contract("config.parse_config_value")
def config_value(V):
    v = V.str("value")
    r = V.run(V.mod("config").parse_config_value, v)
    V.ensure("'1' and '0' mean true and false, any other value is kept", V.both(r.ok, V.sym(pack(r.value) == value_of(v.t))))


@contract("config.parse_config_file", "config.parse_config_value")
def config_file(V):
    """K is an arbitrary setting"""
    k = V.str("setting")
    K = PyVal.VStr(k.t)
    path = V.path("file")
    V.io_ok = True
    config = V.dict(StrT, AnyT, "before")
    before = opt(config.toterm(), K)
    c = z3.Select(V.fs.cell.term, path.t)
    last = LastSetting(V, lines_of(mkstr(PyVal.vs(c))), k.t, before)
    last_hints(V, last, K)
    r = V.run(V.mod("config").parse_config_file, path, config)
    after = opt(config.toterm(), K)
    V.ensure("no file, no change", V.implies(V.sym(PyVal.is_VNone(c)), V.both(r.ok, V.sym(after == before))))
    if r.ok:
        V.ensure("the file's last line for a setting decides it, other settings stay",
                 V.either(V.sym(PyVal.is_VNone(c)), V.sym(after == last.upto(s_len(last.lines)))))


@contract("config.resolve_default_config", "config.get_default_config")
def default_layers(V):
    """K is an arbitrary setting; at most one environment variable (E) names it"""
    cfg = V.mod("config")
    k = V.str("setting")
    K = PyVal.VStr(k.t)
    ev = V.str("variable")
    E = PyVal.VStr(ev.t)
    env = V.environ.toterm()
    V.environ.get(ev)
    has = only_variable(V, env, k.t, ev.t)
    value = value_of(PyVal.vs(d_get(env, E)))
    P, H = V.any("project value"), V.any("home value")
    hasP, hasH = V.bool("in project file"), V.bool("in home file")
    st = V.state
    st["files"] = 0
    V.assume(V.sym(z3.And(z3.Not(PyVal.is_VNone(P.t)), z3.Not(PyVal.is_VNone(H.t)))))

    def parse(config_file, config):
        """contract of parse_config_file, for the setting K"""
        project = V.eq(config_file, ".booktest")
        there, val = (hasP, P) if project else (hasH, H)
        old = opt(config.toterm(), K)
        new = V.dict(StrT, AnyT, "after file")
        V.e.add(opt(new.toterm(), K) == z3.If(bterm(there), val.t, old))
        config.assign(new)
        st["files"] = st["files"] + 1
    V.patch_fn("config", "parse_config_file", parse)
    env_var_hints(V, K, E, has, value)
    if V.choose(2, "entry") == 0:
        r = V.run(cfg.resolve_default_config, ".booktest")
    else:
        V.patch_fn("config", "DEFAULT_CONFIG", None)
        r = V.run(cfg.get_default_config)
    V.ensure("resolving ends normally", r.ok)
    got = opt(r.value.toterm(), K)
    V.ensure("the value comes from the environment, else the project's file, else the home directory's file, else there is none",
             V.sym(got == z3.If(has, value, z3.If(hasP.t, P.t, z3.If(hasH.t, H.t, PyVal.VNone)))))


@contract("tests.Tests.exec_parsed")
def invocation(V):
    """K: the setting of one flag (which is arbitrary), or any setting that no flag sets; the other flags are all given or all not given"""
    tests = V.mod("tests")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    n, rest = V.choose(15, "flag"), V.choose(2, "other flags")
    other = V.choose(2, "setting") == 1 if n == 0 else False
    K = the_setting(V, n, other)
    base = V.dict(StrT, AnyT, "defaults")
    extra = V.dict(StrT, AnyT, "caller's defaults")
    B, X = base.toterm(), extra.toterm()
    st = V.state
    st["config"] = None

    def ran(config):
        V.ensure("one run", st["config"] is None)
        st["config"] = config
        return 0
    V.patch_fn("tests", "get_default_config", lambda: base)
    V.patch_fn("tests", "run_tests", lambda exp_dir, out_dir, tests, cases, config, cache, setup: ran(config))
    V.patch_fn("tests", "parallel_run_tests", lambda exp_dir, out_dir, tests, cases, config, setup: ran(config))
    V.patch_fn("tests", "Coverage", Cov)
    V.patch(V.mod("tests").os, "listdir", lambda d: VList(conc=[]))
    V.patch(V.mod("tests").os.path, "exists", lambda p: False)
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=VList(conc=[]))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cases, config: (VList(conc=[]), cases))
    V.patch(tests.Tests, "selected_names", lambda self, selection, cache_out_dir: V.list(StrT, "cases"))
    env_var_hints(V, K, K, t_mem(d_dom(X), K), d_get(X, K))
    parsed, flags = command_line(V, n, rest)
    r = V.run(V.new(tests.Tests, cases=VList(conc=[])).exec_parsed, V.path("root"), parsed, None, extra)
    V.ensure("the invocation ends normally", r.ok)
    if r.ok:
        V.ensure("the tests are run", st["config"] is not None)
        V.ensure("command line, then caller's defaults, then environment and files",
                 V.sym(look(st["config"].toterm(), K) == effective(flags, None if other else n, K, X, B)))
    V.ensure("the process-wide defaults are not changed", V.sym(base.toterm() == B))
    V.ensure("the caller's defaults are not changed", V.sym(extra.toterm() == X))
