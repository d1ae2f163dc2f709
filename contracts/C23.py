from contracts.exp_common import *
from contracts.C24 import abstract_reader, start_at
from hints.C24 import *
from hints.C23 import *


def setting(V, more=None):
    """a case somewhere in its expectation; seeking moves anywhere (see C24), writing a line moves on and keeps marks"""
    T = V.cls("testcaserun", "TestCaseRun")
    L = V.list(StrT, "expected lines")
    t = plain_case(V, line_diff=None, line_error=None, diffs=0, errors=0, out_line="")
    n = start_at(V, t, L)
    abstract_reader(V, t, L)
    N = len(L)
    prefix = V.str("prefix") if V.choose(2, "prefix given") == 1 else " * "
    items = V.list(StrT, "items")
    E = Listed(V, L, n, prefix)
    distinct_items(V, items)
    V.state["errors"] = t.errors

    def move(self, m):
        self.exp_line_number = m
        self.exp_line = L[m - 1] if m <= N else None

    def jump(self, line_number):
        move(self, N + 1 if line_number > N + 1 else (1 if line_number < 1 else line_number))

    def seek_line(self, anchor, begin=0, end=2 ** 63 - 1):
        self.exp_line_number = V.int("found at")
        self.exp_line = V.opt(StrT, "found line")

    def iln(self, text=""):
        if self.line_diff is not None:
            self.diffs = self.diffs + 1
            self.line_diff = None
        self.exp_line_number = V.int("next")
        self.exp_line = V.opt(StrT, "next line")
        return self
    V.patch(T, "jump", jump)
    V.patch(T, "seek_line", seek_line)
    V.patch(T, "iln", iln)
    return t, L, E, items, prefix


def write_set(V, t, items, prefix):
    r = V.run(t.tset, items) if prefix == " * " else V.run(t.tset, items, prefix)
    V.ensure("writing a set returns normally", r.ok)
    return r


@contract("testcaserun.TestCaseRun.tset", "testcaserun.TestCaseRun.diff")
def missing(V):
    """an expected item that is not written is a difference"""
    t, L, E, items, prefix = setting(V)
    x = V.str("an item")
    V.assume(is_expected(V, E, x))
    not_written(V, items, x)
    collect_hints(V, t, L, E, items, x=x)
    write_set(V, t, items, prefix)
    V.ensure("a missing item is a difference", differed(V, t))


@contract("testcaserun.TestCaseRun.tset", "testcaserun.TestCaseRun.diff")
def added(V):
    """an item that is not expected is a difference"""
    t, L, E, items, prefix = setting(V)
    k = V.int("an item's number")
    V.assume(V.both(0 <= k, k < len(items), V.neg(expected_at(V, E, items, k))))
    collect_hints(V, t, L, E, items, extra=k)
    write_set(V, t, items, prefix)
    V.ensure("an added item is a difference", differed(V, t))


@contract("testcaserun.TestCaseRun.tset", "testcaserun.TestCaseRun.diff")
def equal(V):
    """equal sets are no difference, in whatever orders; afterwards the line behind the list is expected"""
    t, L, E, items, prefix = setting(V)
    equal_sets(V, E, items)
    collect_hints(V, t, L, E, items, equal=True)
    write_set(V, t, items, prefix)
    V.ensure("equal sets are no difference", V.neg(differed(V, t)))
    V.ensure("the comparison continues behind the list", V.both(t.exp_line_number == end_of(E), same_line(V, t, L)))


@contract("testcaserun.TestCaseRun.tset")
def position(V):
    """whatever is written, afterwards the line behind the list is expected, and no failure is marked"""
    t, L, E, items, prefix = setting(V)
    collect_hints(V, t, L, E, items)
    write_set(V, t, items, prefix)
    V.ensure("the comparison continues behind the list", V.both(t.exp_line_number == end_of(E), same_line(V, t, L)))
    V.ensure("no failure is marked", V.both(t.errors == V.state["errors"], t.line_error is None))


@contract("testcaserun.TestCaseRun.tset", "testcaserun.TestCaseRun.iln", "testcaserun.TestCaseRun.feed", "testcaserun.TestCaseRun.seek_line", "testcaserun.TestCaseRun.seek",
          "testcaserun.TestCaseRun.jump")
def written(V):
    """the items are written in the given order, each on its own line; without an expectation file nothing else happens"""
    T = V.cls("testcaserun", "TestCaseRun")
    st = V.state
    t = plain_case(V, line_diff=None, line_error=None, exp_file_exists=False, exp_line_number=None)
    st["out"] = ""
    V.patch_fn("testcaserun", "TestTokenizer", lambda text: [text])

    def feed_token(self, token, check=False):
        V.ensure("the items are not compared one by one", check is False)
        st["out"] = st["out"] + token
        return self
    V.patch(T, "feed_token", feed_token)
    a, b = V.str("a"), V.str("b")
    n = V.choose(3, "items")
    m0 = marks(V, t)
    r = V.run(t.tset, [a, b][:n])
    V.ensure("writing a set returns normally", r.ok)
    V.ensure("the items are written in order", V.eq(st["out"], ["", " * " + a + "\n", " * " + a + "\n * " + b + "\n"][n]))
    V.ensure("nothing is marked", same_marks(V, t, m0))


from contracts.C24 import reading as reading_lines, jumping as jumping_back, seeking as seeking_items
