import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.run import *


class NamedTests:
    def get_case(self, name):
        return None

    def all_names(self):
        return []


def sequential(V, which):
    """TestRun.run / run_async against the contracts of run_case, of_file, cases_to_done_and_todo and write_case"""
    tr = V.mod("testrun")
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    CR = V.cls("reports", "CaseReports")
    recs = V.list(TupT(StrT, EnumT(Res), RealT), "records")
    todo = V.list(StrT, "todo")
    done = V.list(TupT(StrT, EnumT(Res), RealT), "done")
    cases = V.list(StrT, "selected")
    out, rep = V.path("out"), V.path("rep")
    where = (out if which == "exit" else rep) + "/cases.txt"
    executed = V.ghost(VList(term=s_empty, et=TupT(StrT, EnumT(Res), RealT)))
    written = V.ghost(VList(term=s_empty, et=TupT(StrT, EnumT(Res), RealT)))
    aborted = V.cell(False, "aborted", BoolT)
    allok = V.cell(True, "allok", BoolT)
    nofail = V.cell(True, "nofail", BoolT)
    config = V.dict(StrT, AnyT, "config")
    ff = V.sym(truthy_term(z3.If(t_mem(d_dom(config.toterm()), pack("fail_fast")), d_get(config.toterm(), pack("fail_fast")), PyVal.VBool(False))))

    async def run_case(self, case_path, case, title=None):
        V.ensure("no case is run after an abort or, in fail-fast mode, after a failing case", V.neg(aborted.v))
        res = V.enum(Res, "res")
        req = V.enum(Req, "request")
        dur = V.real("duration")
        executed.append((case_path, res, dur))
        allok.v = V.both(allok.v, res == Res.OK)
        nofail.v = V.both(nofail.v, res != Res.FAIL)
        if req == Req.ABORT or (ff and res != Res.OK):
            aborted.v = True
        return res, req, dur

    def of_file(name):
        V.ensure("the earlier report is that of the report directory", V.eq(name, where))
        return V.new(CR, cases=recs)

    def plan(self, cs, conf):
        V.ensure("planning gets the selected cases and the configuration", V.both(V.eq(cs, cases), V.eq(conf, config)))
        return done, todo

    def write_case(f, name, res, duration):
        V.ensure("the records are written to the report", V.eq(f.path, where))
        written.append((name, res, duration))

    V.patch(tr.TestRun, "run_case", run_case)
    V.patch(CR, "of_file", staticmethod(of_file))
    V.patch(CR, "cases_to_done_and_todo", plan)
    V.patch(CR, "write_case", staticmethod(write_case))
    V.io_ok = True
    V.patch_fn("review", "end_report", lambda printer, failed, tests, took: None)
    V.patch_fn("review", "create_index", lambda d, names: None)
    kept = Filt(V, recs, lambda e: z3.Not(s_mem(todo.toterm(), PyVal.t3a(e))))
    verdict_hints(V, Res, allok, nofail, aborted, ff)
    progress_hints(V, executed, todo.toterm(), written, kept)
    filt_hints(V, kept)
    run = tr.TestRun(V.path("exp"), out, rep, NamedTests(), cases, config, None)
    if which == "exit":
        setup = Setup(V)
        r = V.run(V.mod("runs").run_tests, V.path("exp"), out, NamedTests(), cases, config, None, setup)
    else:
        r = V.run(run.run)
    V.ensure("the run returns normally", r.ok)
    ex = executed.toterm()
    if which == "exit":
        V.ensure("exit status 0 exactly when every executed case is OK", V.iff(r.value == 0, allok.v))
    else:
        V.ensure("the overall result is OK exactly when every executed case is OK", V.iff(r.value == Res.OK, allok.v))
        j = V.int("j")
        V.assume(0 <= j)
        V.ensure("planned cases are executed in order", V.sym(z3.Implies(z3.And(0 <= j.t, j.t < s_len(ex)), PyVal.t3a(s_nth(ex, j.t)) == s_nth(todo.toterm(), j.t))))
        V.ensure("every planned case is executed unless aborted or failing fast",
                 V.either(aborted.v, V.sym(s_len(ex) == s_len(todo.toterm()))))
        V.ensure("never more cases executed than planned", V.sym(s_len(ex) <= s_len(todo.toterm())))
        V.ensure("the report holds every earlier record of an unplanned case, then one record per executed case, in order",
                 V.sym(written.toterm() == s_app(kept.all(), ex)))


class Setup:
    def __init__(self, V):
        self.V = V

    def setup_teardown(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class PSetup:
    def __init__(self, V):
        self.V = V


def parallel(V, which):
    """parallel_run_tests against the contracts of the runner, report_case, of_dir, planning and write_case"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    CR = V.cls("reports", "CaseReports")
    RT = TupT(StrT, EnumT(Res), RealT)
    recs = V.list(RT, "records")
    todo = V.list(StrT, "todo")
    pdone = V.list(RT, "planned done")
    cases = V.list(StrT, "selected")
    waiting = V.list(RT, "finished, not reviewed")
    config = V.dict(StrT, AnyT, "config")
    out = V.path("out")
    reviewed = V.ghost(VList(term=s_empty, et=RT))
    written = V.ghost(VList(term=s_empty, et=RT))
    started = V.cell(False, "started", BoolT)
    allok = V.cell(True, "allok", BoolT)
    nofail = V.cell(True, "nofail", BoolT)
    nm = V.cell(V.str("n0"), "name", StrT)
    rs = V.cell(V.enum(Res, "r0"), "result", EnumT(Res))
    dr = V.cell(V.real("d0"), "duration", RealT)

    class Runner:
        def __init__(self, exp_dir, out_dir, tests, cs, conf, setup, reports):
            V.ensure("the runner gets the planned cases and the old report", V.both(V.eq(cs, todo), V.sym(reports.cases.toterm() == recs.toterm())))
            self.todo = set()
            self.done = set()

        def __enter__(self):
            started.v = True

        def __exit__(self, *a):
            return None

        def has_next(self):
            return V.bool("has next")

        def next_report(self):
            if V.choose(2, "interrupt") == 1:
                raise KeyboardInterrupt()
            nm.v = V.str("case")
            rs.v = V.enum(Res, "result")
            dr.v = V.real("took")
            return nm.v, rs.v, dr.v

        def abort(self):
            pass

        def done_reports(self):
            return waiting

        def batch_dirs(self):
            return []

    def of_dir(out_dir):
        V.ensure("the earlier report is that of the output directory", V.eq(out_dir, out))
        return V.new(CR, cases=recs)

    def plan(self, cs, conf):
        V.ensure("planning gets the selected cases and the configuration", V.both(V.eq(cs, cases), V.eq(conf, config)))
        return pdone, todo

    def report_case(printer, exp_dir, out_dir, case_name, result, took_ms, conf):
        V.ensure("the reviewed case is the finished one", V.both(V.eq(case_name, nm.v), V.eq(result, rs.v), V.eq(conf, config)))
        v = V.enum(Res, "verdict")
        reviewed.append((nm.v, v, dr.v))
        return v, V.enum(Req, "request")

    def write_case(f, name, res, duration):
        V.ensure("the records are written to the report", V.eq(f.path, out + "/cases.txt"))
        written.append((name, res, duration))
        if started.v:
            allok.v = V.both(allok.v, V.eq(res, Res.OK))
            nofail.v = V.both(nofail.v, res != Res.FAIL)

    V.patch(CR, "of_dir", staticmethod(of_dir))
    V.patch(CR, "cases_to_done_and_todo", plan)
    V.patch(CR, "write_case", staticmethod(write_case))
    V.patch_fn("runs", "ParallelRunner", Runner)
    V.patch_fn("runs", "prepare_batch_dir", lambda d: None)
    V.patch_fn("review", "report_case", report_case)
    V.patch_fn("review", "start_report", lambda printer: None)
    V.patch_fn("review", "end_report", lambda printer, failed, tests, took: None)
    V.patch_fn("review", "report_case_begin", lambda printer, name, title, verbose: None)
    V.patch_fn("review", "report_case_result", lambda printer, name, res, took, verbose: None)
    V.patch_fn("review", "create_index", lambda d, names: None)
    V.io_ok = True
    kept = Filt(V, recs, lambda e: z3.Not(s_mem(todo.toterm(), PyVal.t3a(e))))
    filt_hints(V, kept)
    verdict_hints(V, Res, allok, nofail)
    merge_hints(V, written, kept, reviewed, waiting)
    r = V.run(V.mod("runs").parallel_run_tests, V.path("exp"), out, NamedTests(), cases, config, PSetup(V))
    V.ensure("the parallel run returns normally", r.ok)
    if which == "exit":
        V.ensure("exit status 0 exactly when every recorded result is OK", V.iff(V.eq(r.value, 0), allok.v))
    V.ensure("recorded: earlier records of unplanned cases, the reviewed results, the results finished but not reviewed",
             V.sym(written.toterm() == s_app(s_app(kept.all(), reviewed.toterm()), waiting.toterm())))


def reviewing(V, which):
    """review against the contracts of of_file, report_case and to_file"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    CR = V.cls("reports", "CaseReports")
    RT = TupT(StrT, EnumT(Res), RealT)
    recs = V.list(RT, "records")
    config = V.dict(StrT, AnyT, "config")
    out = V.cell(None, "report written")
    dirname = V.path("out")
    where = dirname + "/cases.txt"
    ok = pack(Res.OK)

    class M:
        took_ms = 0

    def of_file(name):
        V.ensure("the report of the output directory is reviewed", V.eq(name, where))
        return V.new(CR, cases=recs)

    def to_file(self, name):
        V.ensure("and written back", V.eq(name, where))
        V.ensure("the report is written once", out.v is None)
        out.v = self.cases

    def report_case(printer, exp_dir, out_dir, case_name, result, took_ms, conf):
        """contract: the verdict stays, or becomes OK by acceptance"""
        V.ensure("report_case gets the configuration", V.eq(conf, config))
        v = V.enum(Res, "verdict")
        V.assume(V.either(V.eq(v, result), V.both(v == Res.OK, result != Res.FAIL)))
        return v, V.enum(Req, "request")

    V.patch(CR, "of_file", staticmethod(of_file))
    V.patch(CR, "to_file", to_file)
    V.patch(V.cls("reports", "Metrics"), "of_dir", staticmethod(lambda d: M()))
    V.patch_fn("review", "report_case", report_case)
    V.patch_fn("review", "start_report", lambda printer: None)
    V.patch_fn("review", "end_report", lambda printer, failed, tests, took: None)
    allok = Fold(V, lambda e: PyVal.t3b(e) == ok)
    fold_hints(V, allok)
    rels = {"name": lambda a, b: PyVal.t3a(a) == PyVal.t3a(b), "duration": lambda a, b: PyVal.t3c(a) == PyVal.t3c(b),
            "tuple": lambda a, b: PyVal.is_VTup3(a),
            "verdict": lambda a, b: z3.Or(PyVal.t3b(a) == PyVal.t3b(b), z3.And(PyVal.t3b(a) == ok, PyVal.t3b(b) != pack(Res.FAIL)))}
    pointwise_hints(V, rels)
    passed = V.list(StrT, "passed") if V.choose(2, "passed given") == 0 else None
    cases = V.list(StrT, "cases") if V.choose(2, "cases given") == 0 else None
    r = V.run(V.mod("review").review, V.path("exp"), dirname, config, passed, cases)
    V.ensure("the review returns normally", r.ok)
    V.ensure("the report is written", out.v is not None)
    if which == "exit":
        V.ensure("exit status 0 exactly when every case in the resulting report is OK", V.iff(V.eq(r.value, 0), V.sym(allok.all(out.v))))
    else:
        for n in ["name", "duration", "tuple", "verdict"]:
            V.ensure("a review keeps every record in order, changing only accepted verdicts: " + n, V.sym(pointwise(out.v, recs, rels[n])))
