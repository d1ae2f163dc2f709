from contracts.run_common import *
from contracts.exec_common import *
from hints.C07 import *


@contract("testrun.TestRun.run_async", "testrun.TestRun.run", "testrun.TestRun.__init__")
def sequential_records(V):
    sequential(V, "records")


@contract("reports.CaseReports.of_file")
def parse_any_lines(V):
    Res = V.cls("reports", "TestResult")
    lines = V.list(StrT, "lines")
    V.patch_fn("reports", "read_lines", lambda path, filename=None: lines)
    want = Filt(V, lines, good(Res), record(Res))
    filt_hints(V, want)
    r = V.run(V.cls("reports", "CaseReports").of_file, V.str("file"))
    V.ensure("reading any report ends normally", r.ok)
    V.ensure("the cases are the records of the well-formed lines, in order; other lines are skipped",
             V.sym(r.value.cases.toterm() == want.all()))


@contract("reports.CaseReports.of_file")
def parse_written_lines(V):
    Res = V.cls("reports", "TestResult")
    recs = V.list(TupT(StrT, EnumT(Res), RealT), "records")
    lines = record_lines(V, Res, recs)
    V.patch_fn("reports", "read_lines", lambda path, filename=None: lines)
    copy_hints(V, recs)
    r = V.run(V.cls("reports", "CaseReports").of_file, V.str("file"))
    V.ensure("reading a written report ends normally", r.ok)
    V.ensure("reading the lines of written records gives the same records in the same order", V.sym(r.value.cases.toterm() == recs.toterm()))


@contract("reports.CaseReports.to_file", "reports.CaseReports.write_case")
def write_records(V):
    Res = V.cls("reports", "TestResult")
    CR = V.cls("reports", "CaseReports")
    recs = V.list(TupT(StrT, EnumT(Res), RealT), "records")
    V.assume(V.sym(forall_in(recs, lambda e: z3.And(type_fact(e, recs.et), z3.Not(z3.Contains(PyVal.vs(PyVal.t3a(e)), NL))))))
    V.io_ok = True
    path = V.path("file")
    enc = Filt(V, recs, lambda e: z3.BoolVal(True), lambda e: PyVal.VStr(line_of(Res, e)))
    text_hints(V, path.t, enc)
    r = V.run(V.new(CR, cases=recs).to_file, path)
    V.ensure("writing a report ends normally", r.ok)
    t = PyVal.vs(z3.Select(V.fs.cell.term, path.t))
    V.ensure("the report has exactly one line for each record, in order", V.sym(nl_lines(t) == enc.all()))
    V.ensure("the last line is terminated", V.sym(z3.Or(t == z3.StringVal(""), z3.SuffixOf(NL, t))))


@contract("reports.read_lines")
def lines_of_text(V):
    V.io_ok = True
    path = V.path("file")
    c = z3.Select(V.fs.cell.term, path.t)
    t = PyVal.vs(c)
    r = V.run(V.mod("reports").read_lines, path)
    V.ensure("reading lines ends normally", r.ok)
    there = PyVal.is_VStr(c)
    V.assume(V.sym(z3.Or(there, PyVal.is_VNone(c))))
    V.ensure("a text of terminated lines is read as exactly these lines",
             V.implies(V.sym(z3.And(there, z3.Or(t == z3.StringVal(""), z3.SuffixOf(NL, t)))), V.sym(r.value.toterm() == nl_lines(t))))
    V.ensure("a missing report has no lines", V.implies(V.sym(z3.Not(there)), V.eq(len(r.value), 0)))


@contract("review.review")
def review_records(V):
    reviewing(V, "records")


@contract("runs.parallel_run_tests")
def parallel_records(V):
    """a parallel run leaves the earlier records of unplanned cases, then the reviewed results, then those finished but not reviewed"""
    parallel(V, "records")


@contract("runs.parallel_run_tests")
def merged_outputs(V):
    """collecting the files of the batches leaves the report alone"""
    runs = V.mod("runs")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    st = V.state
    st["written"] = 0
    out = V.path("out")
    batch = out + "/.batches/case"
    files = V.list(StrT, "files of the batch")

    class Runner:
        def __init__(self, *a):
            self.todo = set()
            self.done = set()

        def __enter__(self):
            return None

        def __exit__(self, *a):
            return None

        def has_next(self):
            return False

        def abort(self):
            pass

        def done_reports(self):
            return VList(conc=[])

        def batch_dirs(self):
            return [batch]

    def write_lines(d, name, lines):
        V.ensure("only other files are written", V.both(V.eq(d, out), name != "cases.txt"))
    V.patch_fn("runs", "ParallelRunner", Runner)
    V.patch_fn("runs", "prepare_batch_dir", lambda d: None)
    V.patch_fn("runs", "read_lines", lambda d, name: V.list(StrT, "lines"))
    V.patch_fn("runs", "write_lines", write_lines)
    for f in ("start_report", "end_report", "create_index"):
        V.patch_fn("runs", f, lambda *a: None)
    V.patch(runs.os, "listdir", lambda d: files)
    V.patch(runs.os.path, "isdir", lambda d: V.bool("is there"))
    V.patch(CR, "of_dir", staticmethod(lambda d: V.new(CR, cases=VList(conc=[]))))
    V.patch(CR, "cases_to_done_and_todo", lambda self, cs, conf: (VList(conc=[]), cs))
    V.patch(V.cls("reports", "Metrics"), "to_dir", lambda self, d: None)
    r = V.run(runs.parallel_run_tests, V.path("exp"), out, NamedTests(), V.list(StrT, "cases"), V.dict(StrT, AnyT, "config"), PSetup(V))
    V.ensure("the parallel run returns normally", r.ok)


@contract("tests.Tests.exec_parsed", "reports.CaseReports.of_dir", "reports.CaseReports.to_dir")
def forgetting(V):
    """forgetting removes exactly the records of the selected cases"""
    tests = V.mod("tests")
    Res = V.cls("reports", "TestResult")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    st = V.state
    st["written"] = None
    recs = V.list(TupT(StrT, EnumT(Res), RealT), "records")
    selected = V.list(StrT, "selected")
    root = V.path("root")
    where = root + "/.out/cases.txt"
    config = V.dict(StrT, AnyT, "defaults")
    parsed = Parsed()
    parsed.cmd = "--forget"

    def of_file(name):
        V.ensure("the report of the output directory is read", V.eq(name, where))
        return V.new(CR, cases=recs)

    def to_file(self, name):
        V.ensure("the report is written back, once", V.both(V.eq(name, where), st["written"] is None))
        st["written"] = self.cases
    V.patch(CR, "of_file", staticmethod(of_file))
    V.patch(CR, "to_file", to_file)
    V.patch(CR, "cases_to_done_and_todo", lambda self, cs, conf: (VList(conc=[]), cs))
    V.patch_fn("tests", "get_default_config", lambda: config)
    V.patch(tests.Tests, "selected_names", lambda self, selection, cache_out_dir: selected)
    kept = Filt(V, recs, lambda e: z3.Not(s_mem(selected.toterm(), PyVal.t3a(e))))
    filt_hints(V, kept)
    r = V.run(V.new(tests.Tests, cases=VList(conc=[])).exec_parsed, root, parsed)
    V.ensure("the invocation ends normally", r.ok)
    V.ensure("the report is written", st["written"] is not None)
    V.ensure("the other records, unchanged and in order", V.sym(st["written"].toterm() == kept.all()))
