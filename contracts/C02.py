from contracts.exp_common import *


@contract("testcaserun.TestCaseRun.feed_token", "testcaserun.TestCaseRun.test_feed_token", "testcaserun.TestCaseRun.next_exp_token", "testcaserun.TestCaseRun.diff",
          "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line", "testcaserun.TestCaseRun.report")
def token(V):
    """a checked token that is not the expected one is a difference; no difference is ever lost"""
    T = V.cls("testcaserun", "TestCaseRun")
    moved = V.ghost([])
    V.patch(T, "next_exp_line", lambda self: moved.append(1))
    t = a_case(V)
    Y = V.list(StrT, "tokens of the expected line")
    k = V.int("token number")
    V.assume(V.both(0 <= k, k <= len(Y)))
    there = V.choose(2, "a line is left") == 0
    toks = LineTokens(Y, k)
    t.exp_tokens = toks if there else None
    expected = None if not there else (Y[k] if k < len(Y) else "\n")
    token = V.str("token")
    d0 = differed(V, t)
    ex = t.exp_file_exists
    if V.choose(2, "which") == 0:
        check = V.bool("check")
        r = V.run(t.feed_token, token, check)
    else:
        check = True
        r = V.run(t.test_feed_token, token)
    V.ensure("writing returns normally", r.ok)
    wrong = V.both(ex, check, V.neg(V.eq(token, expected)))
    V.ensure("a checked token other than the expected one is a difference", V.implies(wrong, differed(V, t)))
    V.ensure("a difference is not lost", V.implies(d0, differed(V, t)))
    V.ensure("every token is counted", toks.k == (k + 1 if there and k < len(Y) else k))
    V.ensure("ending a line moves to the next expected one, once", len(moved) == (1 if token == "\n" else 0))
    ensure_counters(V, t)


@contract("testcaserun.TestCaseRun.next_exp_line", "testcaserun.TestCaseRun.reset_exp_reader", "testcaserun.TestCaseRun.start")
def expected_lines(V):
    """the expected tokens are those of the next line of the expectation file, from its first one on; nothing is expected behind the last line"""
    L, last = expectation(V)
    t = plain_case(V)
    n = V.int("line")
    place(V, t, L, last, n)
    m0 = marks(V, t)
    if V.choose(2, "which") == 0:
        r = V.run(t.next_exp_line)
        m = n + 1 if n < len(L) else n
    else:
        V.patch(V.cls("testcaserun", "TestCaseRun"), "open", lambda self: None)
        V.patch_fn("testcaserun", "report_case_begin", lambda *a: None)
        V.patch(V.mod("testcaserun").time, "time", lambda: 0.0)
        r = V.run(t.start)
        m = 0
    V.ensure("moving returns normally", r.ok)
    placed(V, t, L, m, "expected")
    if m < len(L):
        V.ensure("from the first token on", V.both(t.exp_tokens is not None, t.exp_tokens.k == 0))
    V.ensure("no mark is changed", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.test_feed", "testcaserun.TestCaseRun.t", "testcaserun.TestCaseRun.tln", "testcaserun.TestCaseRun.tformat", "testcaserun.TestCaseRun.tlist",
          "testcaserun.TestCaseRun.timage", "testcaserun.TestCaseRun.anchor", "testcaserun.TestCaseRun.anchorln", "testcaserun.TestCaseRun.keyvalueln",
          "testcaserun.TestCaseRun.header", "testcaserun.TestCaseRun.h1", "testcaserun.TestCaseRun.h2", "testcaserun.TestCaseRun.h3", "testcaserun.TestCaseRun.h")
def checked(V):
    """the checked output calls check everything they write"""
    T = V.cls("testcaserun", "TestCaseRun")
    st = V.state
    t = plain_case(V)
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: [text])
    st["written"] = ""
    st["top"] = True

    def feed_token(self, token, check=False):
        if st["top"] and st["header"] and t.line_number > 0:
            V.ensure("an empty line before a header", token == "\n")
        else:
            V.ensure("every token is checked", check is True)
            st["written"] = st["written"] + token
        st["top"] = False
        return self
    V.patch(T, "feed_token", feed_token)
    V.patch(T, "seek", lambda self, *a: None)
    V.patch(T, "rel_path", lambda self, f: "rel.png")
    x, y = V.str("x"), V.str("y")
    how = V.choose(13, "call")
    st["header"] = how in [7, 8, 9]
    r = V.run([lambda: t.t(x), lambda: t.tln(x), lambda: t.tln(), lambda: t.test_feed(x), lambda: t.anchor(x), lambda: t.anchorln(x), lambda: t.keyvalueln(x, y),
               lambda: t.header(x), lambda: t.h(2, x), lambda: t.h1(x), lambda: t.timage("dir/pic.png"), lambda: t.timage("dir/pic.png", y),
               lambda: t.tlist([x, y])][how])
    V.ensure("writing returns normally", r.ok)

    def w(*texts):
        out = ""
        for s in texts:
            out = out + s
        return out
    want = [w(x), w(x, "\n"), w("", "\n"), w(x), w(x), w(x, "\n"), w(x, " " + y, "\n"), w(x, "\n", "", "\n"), w("## " + x, "\n", "", "\n"), w("# " + x, "\n", "", "\n"),
            w("![pic](rel.png)", "\n"), w("![" + y + "](rel.png)", "\n"), w(" * " + x, "\n", " * " + y, "\n")][how]
    V.ensure("everything is written, in order", V.eq(st["written"], want))


@contract("testcaserun.TestCaseRun.end", "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line", "testcaserun.TestCaseRun.review", "review.case_review")
def verdict(V):
    """a case with a difference, or without an expectation file, does not end as OK; also when the marked line was never ended"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    T = V.cls("testcaserun", "TestCaseRun")
    st = V.state
    st["frozen"] = False

    def freeze(*a):
        st["frozen"] = True
    V.patch(T, "next_exp_line", lambda self: None)
    V.patch(T, "close", lambda self: None)
    for n in ["maybe_print_logs", "report_case_result"]:
        V.patch_fn("testcaserun", n, lambda *a: None)
    V.patch_fn("review", "freeze_case", freeze)
    request = V.enum(Req, "request")
    V.patch_fn("review", "interact", lambda exp_dir, out_dir, case_name, test_result, config: (test_result, request))
    t = a_case(V, started=V.real("started"))
    t.config = {"interactive": V.bool("interactive"), "always_interactive": V.bool("always interactive"), "accept": V.bool("accept"), "update": V.bool("update")}
    d0 = differed(V, t)
    f0 = failed(V, t)
    there = V.fs.exists("books/case.md")
    r = V.run(t.end)
    V.ensure("ending a case returns normally", r.ok)
    ok = r.value[0] == Res.OK
    V.ensure("a case that differs is only OK when it is accepted", V.implies(V.both(ok, d0), st["frozen"]))
    V.ensure("a case without expectation is only OK when it is accepted", V.implies(V.both(ok, V.neg(there)), st["frozen"]))
    V.ensure("a case without difference and failure is OK", V.implies(V.both(V.neg(d0), V.neg(f0), there), ok))


@contract("testcaserun.TestCaseRun.diff", "testcaserun.TestCaseRun.fail")
def mark(V):
    t = a_case(V)
    d0 = differed(V, t)
    if V.choose(2, "which") == 0:
        r = V.run(t.diff)
        V.ensure("marking a difference makes the case differ", V.both(r.ok, differed(V, t)))
    else:
        r = V.run(t.fail)
        V.ensure("marking a failure loses no difference", V.both(r.ok, V.iff(d0, differed(V, t))))
    ensure_counters(V, t)


@contract("testcaserun.TestCaseRun.__init__")
def fresh(V):
    """a new case compares with the expectation file exactly when there is one"""
    V.io_ok = True
    T = V.cls("testcaserun", "TestCaseRun")

    class Run:
        exp_dir = "books"
        out_dir = "out"
    V.patch(V.mod("testcaserun").shutil, "rmtree", lambda p: None)
    there = V.fs.exists("books/test/case.md")
    r = V.run(T, Run(), "test/case", {}, Sink())
    V.ensure("a case is set up", r.ok)
    t = r.value
    V.ensure("the expectation is used exactly when there is one", V.iff(t.exp_file_exists, there))
    V.ensure("it is the one of the case", t.exp_file_name == "books/test/case.md")
    V.ensure("nothing is marked yet", V.both(t.diffs == 0, t.errors == 0, t.line_diff is None, t.line_error is None, t.out_line == ""))


@contract("testcaserun.TestCaseRun.assertln", "testcaserun.TestCaseRun.must_apply", "testcaserun.TestCaseRun.must_equal", "testcaserun.TestCaseRun.must_contain",
          "testcaserun.TestCaseRun.ifloatln", "testcaserun.TestCaseRun.tmsln", "testcaserun.TestCaseRun.imsln", "testcaserun.TestCaseRun.i", "testcaserun.TestCaseRun.iln",
          "testcaserun.TestCaseRun.feed", "testcaserun.TestCaseRun.head_exp_token", "testcaserun.TestCaseRun.seek_line", "testcaserun.TestCaseRun.seek_prefix")
def kept(V):
    """the other calls leave the marks to the ones above"""
    T = V.cls("testcaserun", "TestCaseRun")
    t = a_case(V)
    V.patch(T, "feed_token", lambda self, token, check=False: self)
    V.patch(T, "seek", lambda self, *a: None)
    V.patch(T, "fail", lambda self: self)
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: [text])
    V.patch(V.mod("testcaserun").time, "time", lambda: 1.0)
    Y = V.list(StrT, "tokens of the expected line")
    t.exp_tokens = LineTokens(Y, 0) if V.choose(2, "a line is left") == 0 else None
    m0 = marks(V, t)
    x = V.str("x")
    how = V.choose(9, "call")
    r = V.run([lambda: t.assertln(V.bool("c")), lambda: t.must_apply(x, "title", lambda it: V.bool("c")), lambda: t.must_equal(x, V.str("y")),
               lambda: t.tmsln(lambda: 1, 10.0), lambda: t.imsln(lambda: 1), lambda: t.i(x), lambda: t.iln(x), lambda: t.seek_line(x),
               lambda: t.seek_prefix(x)][how])
    V.ensure("the call returns normally", r.ok)
    V.ensure("no mark is changed", same_marks(V, t, m0))


from contracts.C01 import lossless as tokens, lookahead as token_lookahead
