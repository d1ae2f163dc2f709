from contracts.case_common import *
from contracts.run_common import *


@contract("testcaserun.TestCaseRun.feed_token", "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line", "testcaserun.TestCaseRun.report",
          "testcaserun.TestCaseRun.diff")
def token(V):
    """writing a token, checked or not, neither loses nor invents a failure"""
    T = V.cls("testcaserun", "TestCaseRun")
    V.patch(T, "next_exp_line", lambda self: None)
    V.patch(T, "next_exp_token", lambda self: V.opt(StrT, "expected token"))
    t = a_case(V)
    f0 = failed(V, t)
    r = V.run(t.feed_token, V.str("token"), V.bool("check"))
    V.ensure("writing returns normally", r.ok)
    V.ensure("a failure is neither lost nor invented", V.iff(f0, failed(V, t)))
    ensure_counters(V, t)


@contract("testcaserun.TestCaseRun.fail", "testcaserun.TestCaseRun.diff")
def mark(V):
    t = a_case(V)
    f0 = failed(V, t)
    if V.choose(2, "which") == 0:
        r = V.run(t.fail)
        V.ensure("marking a failure fails the case", V.both(r.ok, failed(V, t)))
    else:
        r = V.run(t.diff)
        V.ensure("marking a difference neither loses nor invents a failure", V.both(r.ok, V.iff(f0, failed(V, t))))
    V.ensure("for chaining", r.value is t)
    ensure_counters(V, t)


@contract("testcaserun.TestCaseRun.end", "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line")
def verdict(V):
    """the verdict is FAIL exactly when a failure has been marked, whatever else happened"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    T = V.cls("testcaserun", "TestCaseRun")
    st = V.state
    st["reviewed"] = []
    final = V.enum(Res, "after review")
    V.patch(T, "next_exp_line", lambda self: None)
    V.patch(T, "close", lambda self: None)

    def review(self, result):
        st["reviewed"].append(result)
        return final, Req.NONE
    V.patch(T, "review", review)
    for n in ["maybe_print_logs", "report_case_result"]:
        V.patch_fn("testcaserun", n, lambda *a: None)
    t = a_case(V, started=V.real("started"))
    f0 = failed(V, t)
    r = V.run(t.end)
    V.ensure("ending a case returns normally", r.ok)
    V.ensure("the result is reviewed once", len(st["reviewed"]) == 1)
    V.ensure("FAIL exactly when a failure was marked", V.iff(f0, st["reviewed"][0] == Res.FAIL))
    V.ensure("the verdict is the reviewed one", V.both(r.value[0] == final, t.result == final))


@contract("testcaserun.TestCaseRun.assertln", "testcaserun.TestCaseRun.must_apply", "testcaserun.TestCaseRun.must_contain", "testcaserun.TestCaseRun.must_equal",
          "testcaserun.TestCaseRun.must_be_a", "testcaserun.TestIt.must_apply", "testcaserun.TestIt.must_equal", "testcaserun.TestIt.must_contain",
          "testcaserun.TestIt.must_be_a", "testcaserun.TestIt.__init__", "testcaserun.TestCaseRun.it")
def assertion(V):
    """an assertion marks a failure exactly when its condition does not hold"""
    T = V.cls("testcaserun", "TestCaseRun")
    t = a_case(V)
    st = V.state
    st["failed"] = 0

    def fail(self):
        st["failed"] = st["failed"] + 1
        return self
    V.patch(T, "fail", fail)
    for n in ["i", "iln", "t", "tln", "h2"]:
        V.patch(T, n, lambda self, *a: self)
    m0 = marks(V, t)
    how = V.choose(8, "assertion")
    x, y = V.str("x"), V.str("y")
    if how == 0:
        c = V.bool("condition")
        r = V.run(t.assertln, c, V.str("message") if V.choose(2) == 1 else None)
    elif how == 1:
        c = V.bool("condition")
        r = V.run(t.must_apply, x, "title", lambda it: c)
    elif how == 2:
        c = V.eq(x, y)
        r = V.run(t.must_equal, x, y)
    elif how == 3:
        c = y in x
        r = V.run(t.must_contain, x, y)
    elif how == 4:
        typ = [str, int][V.choose(2)]
        c = typ is str
        r = V.run(t.must_be_a, x, typ)
    elif how == 5:
        c = V.eq(x, y)
        r = V.run(lambda: t.it("name", x).must_equal(y))
    elif how == 6:
        c = y in x
        r = V.run(lambda: t.it("name", x).must_contain(y))
    else:
        c = V.bool("condition")
        r = V.run(lambda: t.it("name", x).must_apply("title", lambda it: c))
    V.ensure("asserting returns normally", r.ok)
    V.ensure("a failure is marked exactly when the condition does not hold", V.iff(V.neg(c), V.neg(st["failed"] == 0)))
    V.ensure("no mark is removed", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.tmsln", "testcaserun.TestCaseRun.imsln", "testcaserun.TestCaseRun.ifloatln")
def timing(V):
    T = V.cls("testcaserun", "TestCaseRun")
    t = a_case(V)
    st = V.state
    st["failed"] = 0

    def fail(self):
        st["failed"] = st["failed"] + 1
        return self
    V.patch(T, "fail", fail)
    for n in ["i", "iln", "t", "tln"]:
        V.patch(T, n, lambda self, *a: self)
    V.patch(T, "ifloatln", lambda self, *a: None)
    m0 = marks(V, t)
    times = [V.real("before"), V.real("after")]
    st["at"] = 0

    def clock():
        st["at"] = st["at"] + 1
        return times[st["at"] - 1]
    V.patch(V.mod("testcaserun").time, "time", clock)
    limit = V.real("limit")
    value = V.any("value")
    if V.choose(2, "which") == 0:
        r = V.run(t.tmsln, lambda: value, limit)
        V.ensure("the case fails exactly when the time limit is exceeded", V.iff((times[1] - times[0]) * 1000 > limit, V.neg(st["failed"] == 0)))
    else:
        V.assume(times[1] - times[0] < 1000000)
        r = V.run(t.imsln, lambda: value)
        V.ensure("measuring without limit never fails", st["failed"] == 0)
    V.ensure("measuring returns what the function returned", V.both(r.ok, r.value is value))
    V.ensure("no mark is removed", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.t", "testcaserun.TestCaseRun.tln", "testcaserun.TestCaseRun.i", "testcaserun.TestCaseRun.iln", "testcaserun.TestCaseRun.tformat",
          "testcaserun.TestCaseRun.keyvalueln", "testcaserun.TestCaseRun.anchor", "testcaserun.TestCaseRun.anchorln", "testcaserun.TestCaseRun.header",
          "testcaserun.TestCaseRun.h", "testcaserun.TestCaseRun.h1", "testcaserun.TestCaseRun.h2", "testcaserun.TestCaseRun.h3", "testcaserun.TestCaseRun.timage",
          "testcaserun.TestCaseRun.test_feed_token")
def output(V):
    """the output calls mark nothing by themselves and lose no mark"""
    T = V.cls("testcaserun", "TestCaseRun")
    t = a_case(V)

    def nofail(self):
        V.ensure("output marks no failure", False)
    V.patch(T, "fail", nofail)
    for n in ["feed", "test_feed", "feed_token", "seek_line", "seek_prefix"]:
        V.patch(T, n, lambda self, *a, **k: self)
    V.patch(T, "rel_path", lambda self, f: V.str("relative"))
    m0 = marks(V, t)
    x, y = V.str("x"), V.str("y")
    calls = [lambda: t.t(x), lambda: t.tln(x), lambda: t.tln(), lambda: t.i(x), lambda: t.iln(x), lambda: t.iln(), lambda: t.keyvalueln(x, y), lambda: t.anchor(x),
             lambda: t.anchorln(x), lambda: t.header(x), lambda: t.h(2, x), lambda: t.h1(x), lambda: t.h2(x), lambda: t.h3(x), lambda: t.timage(x, y),
             lambda: t.test_feed_token(x)]
    r = V.run(calls[V.choose(len(calls), "call")])
    V.ensure("writing returns normally", r.ok)
    V.ensure("no mark is removed", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.feed", "testcaserun.TestCaseRun.test_feed", "testcaserun.TestCaseRun.tlist")
def texts(V):
    """the calls writing any number of tokens or items mark no failure and lose no mark"""
    T = V.cls("testcaserun", "TestCaseRun")
    t = a_case(V)

    def nofail(self):
        V.ensure("output marks no failure", False)
    V.patch(T, "fail", nofail)
    V.patch(T, "feed_token", lambda self, token, check=False: self)
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: V.list(StrT, "tokens"))
    m0 = marks(V, t)
    how = V.choose(3, "call")
    if how == 2:
        V.patch(T, "tln", lambda self, text="": self)
        r = V.run(t.tlist, V.list(AnyT, "items"))
    else:
        r = V.run([t.feed, t.test_feed][how], V.str("text"))
    V.ensure("writing returns normally", r.ok)
    V.ensure("no mark is removed", same_marks(V, t, m0))


@contract("testrun.TestRun.run_case")
def exceptions(V):
    """a test that raises - or tries to exit the process - is failed before it is ended; one that returns is not"""
    st = V.state
    V.io_ok = True
    Res = V.cls("reports", "TestResult")
    st["failed"], st["ended"] = False, False

    class TCR:
        def __init__(self, run, case_path, config, output):
            self.took_ms = 1.0

        def start(self, title):
            pass

        def iln(self, *a):
            return self

        def tln(self, *a):
            return self

        def fail(self):
            V.ensure("failures are marked before the case ends", not st["ended"])
            st["failed"] = True
            return self

        def end(self):
            V.ensure("a case ends once", not st["ended"])
            st["ended"] = True
            return st["verdict"], None
    V.patch_fn("testrun", "TestCaseRun", TCR)
    run = V.new(V.cls("testrun", "TestRun"), config={}, output=None)
    V.patch(V.cls("testrun", "TestRun"), "save_test_result", lambda self, path, v: None)
    st["verdict"] = V.enum(Res, "verdict")
    how = V.choose(6, "how the test ends")

    def case(t):
        if how == 1:
            raise ValueError("boom")
        if how == 2:
            raise SystemExit(0)
        if how == 3:
            raise AssertionError()
        if how == 4:
            raise StopIteration()
        if how == 5:
            raise OSError("disk")
        return None

    async def acase(t):
        if how == 4:
            raise KeyError("x")
        return case(t)
    r = V.run(run.run_case, V.str("name"), acase if V.choose(2, "async") == 1 else case)
    V.ensure("the exception does not leave the case", r.ok)
    V.ensure("the case is ended", st["ended"])
    V.ensure("failed exactly when the test raised", V.iff(st["failed"], how != 0))
    V.ensure("the verdict is the one of the case", r.value[0] == st["verdict"])


@contract("testrun.TestRun.run_async", "testrun.TestRun.run")
def others(V):
    """a failing case does not keep the remaining ones from being run, except in fail-fast mode"""
    sequential(V, "result")


from contracts.C05 import reviewing as reviewed, asking as asked
