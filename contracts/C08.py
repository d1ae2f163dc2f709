import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from contracts.run_common import *
from contracts.exec_common import *


def setup(V):
    Res = V.cls("reports", "TestResult")
    recs = V.list(TupT(StrT, EnumT(Res), RealT), "records")
    first = First(V, recs, lambda e: PyVal.vs(PyVal.t3a(e)))
    skip = lambda e: z3.And(first.exists(PyVal.vs(e)), PyVal.t3b(first.elem(PyVal.vs(e))) == pack(Res.OK))
    first_hints(V, first)
    return recs, first, skip


@contract("reports.CaseReports.cases_to_done_and_todo", "reports.CaseReports.by_name")
def todo(V):
    recs, first, skip = setup(V)
    cases = V.list(StrT, "cases")
    keep = Filt(V, cases, lambda e: z3.Not(skip(e)))
    done_ = Filt(V, cases, skip, lambda e: first.elem(PyVal.vs(e)))
    filt_hints(V, keep, done_)
    rep = V.new(V.cls("reports", "CaseReports"), cases=recs)
    config = V.dict(StrT, AnyT, "config")
    r = V.run(rep.cases_to_done_and_todo, cases, config)
    V.ensure("planning returns normally", r.ok)
    done, plan = r.value
    cont = V.sym(truthy_term(z3.If(t_mem(d_dom(config.toterm()), pack("continue")), d_get(config.toterm(), pack("continue")), PyVal.VNone)))
    if cont:
        V.ensure("with continue: to run = the cases whose first record is not OK (or missing), in selection order",
                 V.sym(plan.toterm() == keep.all()))
        V.ensure("with continue: done = the first records of the others, in order", V.sym(done.toterm() == done_.all()))
    else:
        V.ensure("without continue: every selected case is run, in order", V.sym(plan.toterm() == cases.toterm()))
        V.ensure("without continue: nothing counts as done", len(done) == 0)
    V.ensure("the recorded cases are not changed", V.sym(rep.cases.toterm() == recs.toterm()))


@contract("testrun.TestRun.run_async", "testrun.TestRun.run", "testrun.TestRun.__init__")
def sequential_plan(V):
    """a sequential run runs exactly what is planned from the report, the selection and the configuration"""
    sequential(V, "records")


@contract("runs.parallel_run_tests")
def parallel_plan(V):
    """a parallel run hands exactly what is planned to the runner"""
    parallel(V, "records")


@contract("runs.ParallelRunner.__init__", "runs.RunBatch.__init__")
def batches(V):
    """a batch runs its case, whatever the configuration says about continuing"""
    runs = V.mod("runs")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    config = V.dict(StrT, AnyT, "config")
    config["parallel"] = 4
    before = config.toterm()

    class Batch:
        def __init__(self, exp_dir, out_dir, tests, job_config, setup):
            V.state["config"] = job_config
    V.state["config"] = None
    V.patch_fn("runs", "RunBatch", Batch)
    r = V.run(runs.ParallelRunner, V.path("exp"), V.path("out"), NamedTests(), VList(conc=[]), config, None, V.new(CR, cases=VList(conc=[])))
    V.ensure("the runner is made", r.ok)
    job = V.state["config"]
    V.ensure("batches have a configuration", job is not None)
    V.ensure("batches do not skip their case", V.neg(job["continue"]))
    V.ensure("batches do not ask", V.both(V.neg(job["interactive"]), V.neg(job["always_interactive"])))
    key = V.str("key")
    V.assume(V.both(key != "continue", key != "interactive", key != "always_interactive"))
    V.ensure("batches have the other settings of the run", V.eq(job.get(key), config.get(key)))
    V.ensure("the configuration of the run is not changed", V.sym(config.toterm() == before))


@contract("tests.Tests.exec_parsed")
def invocation(V):
    """whether to continue and what is selected reaches the planning as given"""
    tests = V.mod("tests")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    st = V.state
    config = V.dict(StrT, AnyT, "defaults")
    config["coverage"] = False
    given = V.choose(2, "continue") == 1
    parsed = Parsed()
    parsed.c, parsed.p = given, (V.choose(2, "parallel") == 1)
    selected = V.list(StrT, "selected")
    st["ran"] = 0

    def ran(cases, conf):
        st["ran"] = st["ran"] + 1
        V.ensure("the selected cases are handed to the run", V.sym(cases.toterm() == selected.toterm()))
        V.ensure("the option is handed to the run", V.iff(bool(conf.get("continue", False)), V.either(given, bool(config.get("continue", False)))))
        return 0
    V.patch_fn("tests", "get_default_config", lambda: config)
    V.patch_fn("tests", "run_tests", lambda exp_dir, out_dir, tests, cases, conf, cache, setup: ran(cases, conf))
    V.patch_fn("tests", "parallel_run_tests", lambda exp_dir, out_dir, tests, cases, conf, setup: ran(cases, conf))
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=V.list(TupT(StrT, EnumT(V.cls("reports", "TestResult")), RealT), "records"))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cases, conf: (VList(conc=[]), V.list(StrT, "todo")))
    V.patch(tests.Tests, "selected_names", lambda self, selection, cache_out_dir: selected)
    r = V.run(V.new(tests.Tests, cases=VList(conc=[])).exec_parsed, V.path("root"), parsed)
    V.ensure("the invocation ends normally", r.ok)
    V.ensure("the tests are run once", st["ran"] == 1)


from contracts.C07 import parse_any_lines as report_lines, parse_written_lines as recorded
