from contracts.run_common import *
from contracts.sched_common import *
from contracts.exec_common import *


@contract("runs.run_tests", "testrun.TestRun.run_async", "reports.test_result_to_exit_code")
def sequential_exit(V):
    sequential(V, "exit")


@contract("runs.parallel_run_tests")
def parallel_exit(V):
    parallel(V, "exit")


@contract("review.review")
def review_exit(V):
    reviewing(V, "exit")


@contract("runs.ParallelRunner.thread_function", "runs.case_batch_dir_and_report_file", "reports.CaseReports.make_case")
def finished_cases(V):
    """every case that was run is reported: with the first record of its worker's report, or as failed"""
    scheduler(V, True)


@contract("runs.ParallelRunner.has_next", "runs.ParallelRunner.next_report", "runs.ParallelRunner.done_reports", "runs.ParallelRunner.abort")
def queue(V):
    """the reports are handed out one by one, in order, and what was not handed out remains"""
    PR = V.cls("runs", "ParallelRunner")
    Res = V.cls("reports", "TestResult")
    reports = V.list(TupT(StrT, EnumT(Res), RealT), "reports")
    before, left, aborted = reports.toterm(), V.int("left"), V.bool("aborted")
    runner = V.new(PR, reports=reports, left=left, lock=Lock(), _abort=aborted)
    V.ensure("there is a next one while cases or reports are left, unless aborted",
             V.iff(runner.has_next(), V.both(V.neg(aborted), V.either(left > 0, V.sym(s_len(before) > 0)))))
    V.ensure("what was not handed out remains", V.sym(runner.done_reports().toterm() == before))
    if V.choose(2, "abort") == 1:
        runner.abort()
        V.ensure("an aborted run goes no further", V.neg(runner.has_next()))
        V.ensure("aborting loses no report", V.sym(runner.done_reports().toterm() == before))
    else:
        V.assume(V.sym(s_len(before) > 0))
        r = V.run(runner.next_report)
        V.ensure("a report is handed out", r.ok)
        V.ensure("the first report is handed out", V.sym(pack(r.value) == s_nth(before, 0)))
        j = V.int("j")
        now = runner.done_reports().toterm()
        V.ensure("the others remain", V.sym(z3.And(s_len(now) == s_len(before) - 1,
                                                   z3.Implies(z3.And(0 <= j.t, j.t < s_len(now)), s_nth(now, j.t) == s_nth(before, j.t + 1)))))


@contract("tests.Tests.exec_parsed", "tests.Tests.exec", "cli.exec_parsed", "cli.main")
def command(V):
    """the exit status of an invocation is that of its run or review"""
    tests, cli = V.mod("tests"), V.mod("cli")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    st = V.state
    st["ended"] = 0
    parallel, review = V.choose(2, "parallel") == 1, V.choose(2, "review") == 1
    config = V.dict(StrT, AnyT, "defaults")
    config["parallel"] = False
    config["default_tests"], config["test_paths"], config["books_path"] = "test", "test,book", "books"
    parsed = Parsed()
    parsed.p, parsed.cov, parsed.cmd = (True if parallel else None), V.choose(2, "coverage") == 1, ("--review" if review else None)
    status = V.int("status")

    def end(what):
        V.ensure("what was asked for is done", what == ("review" if review else "parallel" if parallel else "sequential"))
        st["ended"] = st["ended"] + 1
        return status

    class Parser:
        def __init__(self, **k):
            pass

        def parse_args(self, args=None):
            return parsed

        def set_defaults(self, exec):
            parsed.exec = exec

        def print_help(self):
            pass
    for m in (tests, cli):
        V.patch(m.argparse, "ArgumentParser", Parser)
    V.patch(cli.argcomplete, "autocomplete", lambda parser: None)
    V.patch_fn("tests", "get_default_config", lambda: config)
    V.patch_fn("cli", "get_default_config", lambda: config)
    V.patch_fn("cli", "include_sys_path", lambda: None)
    V.patch_fn("cli", "detect_tests", lambda path: [])
    V.patch_fn("cli", "detect_setup", lambda path: None)
    V.patch_fn("tests", "run_tests", lambda *a: end("sequential"))
    V.patch_fn("tests", "parallel_run_tests", lambda *a: end("parallel"))
    V.patch_fn("tests", "review", lambda *a: end("review"))
    V.patch_fn("tests", "Coverage", Cov)
    V.patch(tests.os, "listdir", lambda d: VList(conc=[]))
    V.patch(tests.os.path, "exists", lambda p: False)
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=VList(conc=[]))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cases, config: (VList(conc=[]), cases))
    V.patch(tests.Tests, "selected_names", lambda self, selection, cache_out_dir: V.list(StrT, "cases"))
    V.patch(tests.Tests, "setup_parser", lambda self, parser: None)
    suite = V.new(tests.Tests, cases=VList(conc=[]))
    V.patch(cli.bt, "merge_tests", lambda ts: suite)
    entry = V.choose(4, "entry")
    if entry == 0:
        r = V.run(suite.exec_parsed, V.path("root"), parsed)
    elif entry == 1:
        r = V.run(suite.exec, V.path("root"), VList(conc=[]))
    else:
        r = V.run(cli.main, None if entry == 2 else VList(conc=[]))
    V.ensure("the invocation ends normally", r.ok)
    V.ensure("it is done once", st["ended"] == 1)
    V.ensure("the exit status is that of what was done", V.eq(r.value, status))


@contract("runs.RunBatch.__init__", "runs.RunBatch.__call__", "testrun.TestRun.__init__", "testrun.TestRun.run_async", "runs.case_batch_dir_and_report_file")
def worker(V):
    """the report of a worker is where the scheduler looks, and its first record is that of its case"""
    runs = V.mod("runs")
    tr = runs.TestRun
    CR = V.cls("reports", "CaseReports")
    Res, Req = V.cls("reports", "TestResult"), V.cls("reports", "UserRequest")
    V.io_ok = True
    st = V.state
    st["written"], st["ran"] = 0, 0
    out, case = V.path("out"), V.str("case")
    where = runs.case_batch_dir_and_report_file(out + "/.batches", case)[1]
    old = [] if V.choose(2, "an older report") == 0 else [(case, V.enum(Res, "old result"), 0)]
    res, req, dur = V.enum(Res, "result"), V.enum(Req, "request"), V.real("duration")

    async def run_case(self, name, method, title=None):
        V.ensure("the batch runs its case", V.both(V.eq(name, case), st["ran"] == 0))
        st["ran"] = 1
        return res, req, dur

    def of_file(name):
        return V.new(CR, cases=old)

    def write_case(f, name, result, duration):
        V.ensure("the report is written where the scheduler looks", V.eq(f.path, where))
        V.ensure("with the case's own result, once", V.both(st["written"] == 0, V.eq(name, case), V.eq(result, res), V.eq(duration, dur)))
        st["written"] = 1
    V.patch(tr, "run_case", run_case)
    V.patch(CR, "of_file", staticmethod(of_file))
    V.patch(CR, "write_case", staticmethod(write_case))
    V.patch_fn("review", "end_report", lambda printer, failed, tests, took: None)
    V.patch_fn("review", "start_report", lambda printer: None)
    V.patch_fn("review", "create_index", lambda d, names: None)
    config = V.dict(StrT, AnyT, "config")
    config["continue"] = False
    r = V.run(runs.RunBatch(V.path("exp"), out, NamedTests(), config, Setup(V)), case)
    V.ensure("the batch ends normally", r.ok)
    V.ensure("the case is run and recorded", V.both(st["ran"] == 1, st["written"] == 1))


from contracts.C05 import reviewing as reviewed
from contracts.C07 import parse_any_lines as report_lines
