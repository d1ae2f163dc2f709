from contracts.exp_common import *


@contract("testcaserun.TestCaseRun.feed_token", "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line", "testcaserun.TestCaseRun.next_exp_token")
def unchecked_token(V):
    """an unchecked token marks nothing; a line is written as it is"""
    T = V.cls("testcaserun", "TestCaseRun")
    V.patch(T, "next_exp_line", lambda self: None)
    t = a_case(V)
    Y = V.list(StrT, "tokens of the expected line")
    k = V.int("token number")
    V.assume(V.both(0 <= k, k <= len(Y)))
    t.exp_tokens = LineTokens(Y, k) if V.choose(2, "a line is left") == 0 else None
    token = V.str("token")
    d0, f0, line0, text0 = differed(V, t), failed(V, t), t.out_line, t.out.text
    r = V.run(t.feed_token, token) if V.choose(2, "how") == 0 else V.run(t.feed_token, token, False)
    V.ensure("writing returns normally", r.ok)
    V.ensure("nothing is marked", V.both(V.iff(d0, differed(V, t)), V.iff(f0, failed(V, t))))
    if token == "\n":
        V.ensure("the line is written to the output as it is", V.both(V.eq(t.out.text, text0 + line0 + "\n"), t.out_line == ""))
    else:
        V.ensure("the token is added to the line", V.both(V.eq(t.out.text, text0), V.eq(t.out_line, line0 + token)))


@contract("testcaserun.TestCaseRun.i", "testcaserun.TestCaseRun.iln", "testcaserun.TestCaseRun.feed", "testcaserun.TestCaseRun.ifloatln", "testcaserun.TestCaseRun.imsln")
def unchecked(V):
    """the unchecked output calls write everything unchecked"""
    T = V.cls("testcaserun", "TestCaseRun")
    st = V.state
    t = plain_case(V)
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: [text])
    st["written"] = ""

    def feed_token(self, token, check=False):
        V.ensure("no token is checked", check is False)
        st["written"] = st["written"] + token
        return self

    def nomark(self):
        V.ensure("nothing is marked", False)
    V.patch(T, "feed_token", feed_token)
    V.patch(T, "diff", nomark)
    V.patch(T, "fail", nomark)
    V.patch(V.mod("testcaserun").time, "time", lambda: 1.0)
    m0 = marks(V, t)
    x = V.str("x")
    how = V.choose(5, "call")
    r = V.run([lambda: t.i(x), lambda: t.iln(x), lambda: t.iln(), lambda: t.feed(x), lambda: t.imsln(lambda: 1)][how])
    V.ensure("writing returns normally", r.ok)
    V.ensure("no mark is changed", same_marks(V, t, m0))
    if how < 4:
        V.ensure("everything is written", V.eq(st["written"], [x, x + "\n", "\n", x][how]))


@contract("testcaserun.TestCaseRun.tln", "testcaserun.TestCaseRun.test_feed", "testcaserun.TestCaseRun.test_feed_token", "testcaserun.TestCaseRun.feed_token",
          "testcaserun.TestCaseRun.commit_line", "testcaserun.TestCaseRun.write_line", "testcaserun.TestCaseRun.next_exp_token")
def line(V):
    """writing the expected line marks nothing, writes exactly that line and moves to the next expected one"""
    T = V.cls("testcaserun", "TestCaseRun")
    t = plain_case(V, line_diff=None, line_error=None, out_line="")
    Y = V.list(StrT, "tokens of the line")
    cy = Concat(V, Y)
    single_line(V, Y)
    text = symstr(cy.all())
    V.assume(V.neg("\n" in text))
    toks = LineTokens(Y, 0)
    t.exp_tokens = toks
    t.exp_line = text

    def tokens(s):
        # the tokens of a text are determined by the text (C01)
        if s == "\n":
            return ["\n"]
        if V.eq(s, text):
            return Y
        V.ensure("only the line is written", V.eq(s, text + "\n"))
        return Y + ["\n"]
    moved = V.ghost([])
    V.patch(T, "next_exp_line", lambda self: moved.append(1))
    V.patch(V.mod("testcaserun"), "TestTokenizer", tokens)
    d0, e0, before = t.diffs, t.errors, t.out.text
    feed_hints(V, t, Y, cy, Y, cy, toks, "")
    r = V.run(t.tln, text)
    cy.upto(size(Y))
    V.ensure("writing returns normally", r.ok)
    V.ensure("nothing is marked", V.both(t.line_diff is None, t.line_error is None, t.diffs == d0, t.errors == e0))
    V.ensure("exactly the line is written", V.both(V.eq(t.out.text, before + text + "\n"), t.out_line == ""))
    V.ensure("the next line is expected", len(moved) == 1)


@contract("testcaserun.TestCaseRun.end", "testcaserun.TestCaseRun.review", "review.case_review")
def ending(V):
    """a case without marks ends as OK, and nothing is added to its output"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    T = V.cls("testcaserun", "TestCaseRun")
    V.patch(T, "close", lambda self: None)
    for f in ["maybe_print_logs", "report_case_result"]:
        V.patch_fn("testcaserun", f, lambda *a: None)
    V.patch_fn("review", "freeze_case", lambda *a: None)
    V.patch_fn("review", "interact", lambda exp_dir, out_dir, case_name, test_result, config: (test_result, Req.NONE))
    t = plain_case(V, line_diff=None, line_error=None, out_line="", diffs=0, errors=0, started=V.real("started"))
    t.config = {"interactive": V.bool("interactive"), "always_interactive": V.bool("always interactive"), "accept": V.bool("accept"), "update": V.bool("update")}
    V.assume(V.fs.exists("books/case.md"))
    before = t.out.text
    r = V.run(t.end)
    V.ensure("the case ends as OK", V.both(r.ok, r.value[0] == Res.OK))
    V.ensure("nothing is added to the output", V.eq(t.out.text, before))


@contract("testcaserun.TestCaseRun.start", "testcaserun.TestCaseRun.open", "testcaserun.TestCaseRun.reset_exp_reader", "testcaserun.TestCaseRun.next_exp_line")
def beginning(V):
    """a case starts at the first expected line, with an empty output"""
    import sys
    import logging
    V.io_ok = True
    L, last = expectation(V)
    M = V.mod("testcaserun")
    written = V.ghost([])

    def opening(name, mode="r"):
        if mode == "r":
            return Reader(L, 0, last)
        f = Sink()
        written.append([name, mode])
        return f
    V.patch(M, "open", opening)
    V.patch_fn("testcaserun", "report_case_begin", lambda *a: None)
    t = plain_case(V, out_file_name="out/case.md", rep_file_name="out/case.txt", err_file_name="out/case.log", out=None)
    m0 = marks(V, t)
    r = V.run(t.start)
    V.ensure("starting returns normally", r.ok)
    V.ensure("the output starts empty", V.both(t.out.text == "", written[0][0] == "out/case.md", written[0][1] == "w"))
    placed(V, t, L, 0, "expected")
    if len(L) > 0:
        V.ensure("from the first token on", t.exp_tokens.k == 0)
    V.ensure("nothing is marked", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.next_exp_line")
def next_line(V):
    """after a line the next one of the expectation file is expected, as it is in the file"""
    L, last = expectation(V)
    t = plain_case(V)
    n = V.int("line")
    place(V, t, L, last, n)
    m0 = marks(V, t)
    r = V.run(t.next_exp_line)
    V.ensure("moving returns normally", r.ok)
    placed(V, t, L, n + 1 if n < len(L) else n, "expected")
    V.ensure("nothing is marked", same_marks(V, t, m0))


from contracts.C01 import lossless as tokens
from contracts.C05 import accepting as accepted
