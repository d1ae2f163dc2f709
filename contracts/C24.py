from contracts.exp_common import *
from hints.C24 import *


@contract("testcaserun.TestCaseRun.next_exp_line", "testcaserun.TestCaseRun.reset_exp_reader", "testcaserun.TestCaseRun.close_exp_reader")
def reading(V):
    """reading moves to the next line, or stays at the end; resetting moves to the first line"""
    L, last = expectation(V)
    t = a_case(V, exp_file_exists=True)
    n = V.int("line")
    place(V, t, L, last, n)
    m0 = marks(V, t)
    o0 = t.out_line
    if V.choose(2, "which") == 0:
        r = V.run(t.next_exp_line)
        m = n + 1 if n < len(L) else n
    else:
        r = V.run(t.reset_exp_reader)
        m = 0
    V.ensure("reading returns normally", r.ok)
    placed(V, t, L, m, "reading")
    if m < len(L) and (V.neg(m == n)):
        V.ensure("comparison starts at the first token of the line", t.exp_tokens.k == 0)
    V.ensure("nothing else changes", V.both(same_marks(V, t, m0), t.out_line == o0))


def abstract_reader(V, t, L):
    """the contract of reading and resetting (see `reading`)"""
    T = V.cls("testcaserun", "TestCaseRun")

    def next_exp_line(self):
        m = self.exp_line_number
        if m < len(L):
            self.exp_line_number = m + 1
            self.exp_line = L[m]
        else:
            self.exp_line_number = len(L) + 1
            self.exp_line = None

    def reset_exp_reader(self):
        self.exp_line_number = 1
        self.exp_line = L[0] if len(L) > 0 else None
    V.patch(T, "next_exp_line", next_exp_line)
    V.patch(T, "reset_exp_reader", reset_exp_reader)


def start_at(V, t, L):
    n = V.int("line number")
    V.assume(V.both(1 <= n, n <= len(L) + 1, len(L) < 2 ** 62))
    t.exp_line_number = n
    t.exp_line = L[n - 1] if n <= len(L) else None
    return n


@contract("testcaserun.TestCaseRun.jump")
def jumping(V):
    """jumping leads to the line asked for, or to the nearest one there is"""
    L = V.list(StrT, "expected lines")
    t = plain_case(V)
    n = start_at(V, t, L)
    abstract_reader(V, t, L)
    to = V.int("to")
    m0 = marks(V, t)
    cursor_hints(V, t, L, [to])
    V.terminates()
    V.measure(lambda c: ahead(t, L))
    r = V.run(t.jump, to)
    m = t.exp_line_number
    want = len(L) + 1 if to > len(L) + 1 else (1 if to < 1 else to)
    V.ensure("jumping returns normally", r.ok)
    V.ensure("jumping leads to the line, or the nearest there is", m == want)
    V.ensure("the line is the one of the file", same_line(V, t, L))
    V.ensure("nothing else changes", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.seek")
def seeking(V):
    """seeking: the nearest matching line from here on, else the first matching line before, else here"""
    import sys
    L = V.list(StrT, "expected lines")
    t = plain_case(V)
    at = start_at(V, t, L)
    abstract_reader(V, t, L)
    T = V.cls("testcaserun", "TestCaseRun")
    N = len(L)

    def jump(self, line_number):
        m = N + 1 if line_number > N + 1 else (1 if line_number < 1 else line_number)
        self.exp_line_number = m
        self.exp_line = L[m - 1] if m <= N else None
    V.patch(T, "jump", jump)
    P = predicate(V)
    j = V.int("any line")
    V.assume(V.both(1 <= j, j <= N))
    m0 = marks(V, t)
    cursor_hints(V, t, L, [at], P, j.t, at.t)
    V.terminates()
    V.measure(lambda c: ahead(t, L))
    if V.choose(2, "limits given") == 1:
        r = V.run(t.seek, lambda line: holds(V, P, line), 0, sys.maxsize)
    else:
        r = V.run(t.seek, lambda line: holds(V, P, line))
    V.ensure("seeking returns normally", r.ok)
    m = t.exp_line_number
    here = False
    if m <= N:
        here = holds(V, P, t.exp_line)
    there = holds(V, P, L[j - 1])
    V.ensure("the position is a line of the file or its end", V.both(1 <= m, m <= N + 1, same_line(V, t, L)))
    V.ensure("with a matching line from here on, the nearest one", V.implies(V.both(there, at <= j), V.both(here, at <= m, m <= j)))
    V.ensure("else with a matching line before, the first one", V.implies(V.both(there, m < at), V.both(here, m <= j)))
    V.ensure("a matching line before is found", V.implies(there, here))
    V.ensure("without any matching line the position stays", V.either(here, m == at))
    V.ensure("nothing else changes", same_marks(V, t, m0))


@contract("testcaserun.TestCaseRun.seek", "testcaserun.TestCaseRun.jump")
def no_expectation(V):
    """without an expectation file there is nothing to move"""
    t = plain_case(V, exp_file_exists=False, exp_line_number=0)
    m0 = marks(V, t)
    r = V.run(t.seek, lambda line: True) if V.choose(2, "which") == 0 else V.run(t.jump, V.int("to"))
    V.ensure("nothing moves", V.both(r.ok, t.exp_line is None, t.exp_tokens is None, same_marks(V, t, m0)))


@contract("testcaserun.TestCaseRun.seek_line", "testcaserun.TestCaseRun.seek_prefix", "testcaserun.TestCaseRun.anchor", "testcaserun.TestCaseRun.anchorln",
          "testcaserun.TestCaseRun.header", "testcaserun.TestCaseRun.h", "testcaserun.TestCaseRun.h1", "testcaserun.TestCaseRun.h2", "testcaserun.TestCaseRun.h3",
          "testcaserun.TestCaseRun.keyvalueln")
def anchors(V):
    """what is sought for an anchor or header, and that it is written where it was found"""
    T = V.cls("testcaserun", "TestCaseRun")
    st = V.state
    t = plain_case(V)
    log = V.ghost([])
    line = V.str("expected line")

    def seek(self, is_line_ok, begin=0, end=2 ** 63 - 1):
        V.ensure("the whole file is sought", V.both(begin == 0, end == 2 ** 63 - 1))
        log.append(["seek", is_line_ok(line)])

    def test_feed(self, text):
        log.append(["write", str(text)])
        return self

    def feed_token(self, token, check=False):
        log.append(["token", token])
        return self
    V.patch(T, "seek", seek)
    V.patch(T, "test_feed", test_feed)
    V.patch(T, "feed_token", feed_token)
    x, y = V.str("x"), V.str("y")
    how = V.choose(8, "call")
    r = V.run([lambda: t.anchor(x), lambda: t.anchorln(x), lambda: t.header(x), lambda: t.h(2, x), lambda: t.h1(x), lambda: t.h2(x), lambda: t.h3(x),
               lambda: t.keyvalueln(x, y)][how])
    V.ensure("anchors return normally", r.ok)
    text = [x, x, x, "## " + x, "# " + x, "## " + x, "### " + x, x][how]
    if how >= 2 and how < 7 and len(log) > 0 and log[0][0] == "token":
        V.ensure("an empty line before a header, except at the top", V.both(t.line_number > 0, log[0][1] == "\n"))
        log.pop(0)
    elif how >= 2 and how < 7:
        V.ensure("no empty line before a header only at the top", t.line_number <= 0)
    V.ensure("one search, before the anchor is written", V.both(len(log) > 1, log[0][0] == "seek", log[1][0] == "write"))
    if how == 0 or how == 7:
        V.ensure("a prefix is sought", V.iff(log[0][1], line.startswith(text)))
    else:
        V.ensure("a whole line is sought", V.iff(log[0][1], V.eq(line, text)))
    written = ""
    for k in range(1, len(log)):
        V.ensure("only written to after the search", log[k][0] == "write")
        written = written + log[k][1]
    tail = "" if how == 0 else (" " + y + "\n" if how == 7 else ("\n" if how == 1 else "\n\n"))
    V.ensure("the anchor is written, and what belongs to it", V.eq(written, text + tail))


@contract("testcaserun.TestCaseRun.test_feed", "testcaserun.TestCaseRun.test_feed_token", "testcaserun.TestCaseRun.feed_token", "testcaserun.TestCaseRun.next_exp_token",
          "testcaserun.TestCaseRun.diff")
def mismatch(V):
    """an anchor that is not on the line is a difference"""
    t = plain_case(V, line_diff=None, line_error=None)
    X = V.list(StrT, "tokens of the anchor")
    Y = V.list(StrT, "tokens of the line")
    cx, cy = Concat(V, X), Concat(V, Y)
    ended = V.choose(2, "a whole line")
    toks = LineTokens(Y, 0)
    t.exp_tokens = toks
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: X if text == "anchor" else [text])
    V.patch(V.cls("testcaserun", "TestCaseRun"), "commit_line", lambda self: None)
    single_line(V, X)
    single_line(V, Y)
    feed_hints(V, t, X, cx, Y, cy, toks, t.out_line)
    anchor = symstr(cx.all())
    line = symstr(cy.all())
    r = V.run(t.test_feed, "anchor")
    if ended:
        r = V.run(t.test_feed, "\n")
    V.ensure("writing returns normally", r.ok)
    cx.upto(size(X))
    cy.upto(size(X))
    cy.upto(size(Y))
    found = V.eq(line, anchor) if ended else line.startswith(anchor)
    V.ensure("an anchor that is not there is a difference", V.implies(V.neg(found), t.line_diff is not None))


@contract("testcaserun.TestCaseRun.test_feed", "testcaserun.TestCaseRun.test_feed_token", "testcaserun.TestCaseRun.feed_token", "testcaserun.TestCaseRun.next_exp_token",
          "testcaserun.TestCaseRun.diff")
def mismatch_at_end(V):
    """an anchor written when no expected line is left is a difference"""
    t = plain_case(V, line_diff=None, line_error=None)
    X = V.list(StrT, "tokens of the anchor")
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: X)
    V.patch(V.cls("testcaserun", "TestCaseRun"), "commit_line", lambda self: None)
    V.assume(len(X) > 0)
    end_hints(V, t)
    r = V.run(t.test_feed, "anchor")
    V.ensure("an anchor behind the last line is a difference", V.both(r.ok, t.line_diff is not None))
