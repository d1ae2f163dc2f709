import z3
import sys
import logging
from pyvc.core import *
from pyvc.terms import *
from vclib import *


class Handler:
    """a handler the root logger had before the case"""

    def __init__(self):
        self.formatter = None
        self.closed = False

    def close(self):
        self.closed = True


class Stream:
    """whatever standard error was before the case"""

    def __init__(self):
        self.closed = False

    def write(self, s):
        pass

    def close(self):
        self.closed = True


class Run:
    def __init__(self, V):
        self.exp_dir = V.path("books")
        self.out_dir = V.path("out")


def line_state(V, t, end=True):
    """what writing output may do to a case: the current line, its marks, the counters, the position in the expectation file"""
    t.out_line = V.str("line")
    t.line_diff = V.opt(IntT, "diff mark")
    t.line_error = V.opt(IntT, "error mark")
    if end:
        n = V.choose(3, "marks so far")
        t.diffs = 1 if n == 1 else 0
        t.errors = 1 if n == 2 else 0
    if end and V.choose(2, "expectation read to its end") == 1:
        t.close_exp_reader()


def before(V):
    st = V.state
    st["stderr"] = Stream()
    sys.stderr = st["stderr"]
    n = V.choose(3, "handlers")
    st["handlers"] = [Handler() for i in range(n)]
    st["list"] = list(st["handlers"])
    logging.getLogger().handlers = st["list"]


def ensure_as_before(V):
    st = V.state
    V.ensure("standard error is the one from before", V.both(sys.stderr is st["stderr"], V.neg(st["stderr"].closed)))
    hs = logging.getLogger().handlers
    V.ensure("the root logger has the handlers from before", len(hs) == len(st["handlers"]))
    for i in range(len(st["handlers"])):
        V.ensure("in their order", hs[i] is st["handlers"][i])
        V.ensure("still open", V.neg(st["handlers"][i].closed))
    for f in V.open_files:
        V.ensure("every file opened for the case is closed", f.closed)


def during(V, log):
    V.ensure("standard error goes to the case's log file", V.both(hasattr(sys.stderr, "path"), V.eq(sys.stderr.path, log), V.neg(sys.stderr.closed)))
    hs = logging.getLogger().handlers
    V.ensure("root logging goes to the case's log file, and nowhere else", V.both(len(hs) == 1, hs[0].stream is sys.stderr, V.neg(hs[0].closed)))


@contract("testrun.TestRun.run_case", "testcaserun.TestCaseRun.__init__", "testcaserun.TestCaseRun.start", "testcaserun.TestCaseRun.open",
          "testcaserun.TestCaseRun.close", "testcaserun.TestCaseRun.end", "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line",
          "testcaserun.TestCaseRun.report")
def case(V):
    st = V.state
    V.io_ok = True
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    T = V.cls("testcaserun", "TestCaseRun")
    before(V)
    conf = V.choose(2, "configuration") == 1
    run = V.new(V.cls("testrun", "TestRun"), config={"verbose": conf, "point_error_pos": conf},
                output=Stream(), exp_dir=V.path("books"), out_dir=V.path("out"))
    V.patch(V.cls("testrun", "TestRun"), "save_test_result", lambda self, path, v: None)
    V.patch(T, "feed", lambda self, text: (line_state(V, self, False), self)[1])
    V.patch(T, "test_feed", lambda self, text: (line_state(V, self, False), self)[1])
    V.patch(T, "review", lambda self, result: (result, Req.NONE))
    V.patch(T, "next_exp_line", lambda self: None)
    for n in ["report_case_begin", "maybe_print_logs", "report_case_result"]:
        V.patch_fn("testcaserun", n, lambda *a: None)
    name = ["case", "book/part/case"][V.choose(2, "where")]
    for x in ["", ".tmp"]:
        V.assume(V.neg(V.fs.exists(run.out_dir + "/" + name + x)))
    log = run.out_dir + "/" + name + ".log"
    st["ran"] = 0

    def body(t):
        st["ran"] = st["ran"] + 1
        during(V, log)
        line_state(V, t)
        how = V.choose(5, "what the test does")
        if how == 1:
            sys.stderr = Stream()
        if how == 2:
            logging.getLogger().addHandler(Handler())
        if how == 3:
            raise ValueError("boom")
        if how == 4:
            raise SystemExit(0)
        return None

    async def abody(t):
        return body(t)
    r = V.run(run.run_case, name, abody if len(st["handlers"]) == 1 else body)
    V.ensure("the case finishes", r.ok)
    V.ensure("the test ran once", st["ran"] == 1)
    ensure_as_before(V)


@contract("testcaserun.TestCaseRun.reset_exp_reader", "testcaserun.TestCaseRun.close_exp_reader", "testcaserun.TestCaseRun.next_exp_line")
def reader(V):
    """moving through the expectation file touches neither streams nor handlers, and never leaves more than the current reader open"""
    V.io_ok = True
    before(V)
    T = V.cls("testcaserun", "TestCaseRun")
    p = V.path("expectation file")
    there = V.choose(2, "there is an expectation file") == 1
    if there:
        V.assume(V.sym(PyVal.is_VStr(V.fs.get(p))))
    t = V.new(T, exp_file_name=p, exp_file_exists=there, exp=None, exp_line=None, exp_line_number=0, exp_tokens=None, last_checked=V.bool("last checked"))
    V.patch_fn("testcaserun", "BufferIterator", lambda tokens: tokens)
    r = V.run(t.reset_exp_reader)
    V.ensure("opening the expectation returns normally", r.ok)
    for i in range(2):
        op = V.choose(3, "operation")
        r = V.run(t.reset_exp_reader if op == 0 else (t.next_exp_line if op == 1 else t.close_exp_reader))
        V.ensure("moving returns normally", r.ok)
    for f in V.open_files:
        V.ensure("only the current reader is open", V.either(f.closed, f is t.exp))
    r = V.run(t.close_exp_reader)
    ensure_as_before(V)
