import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


class Sink:
    """an open output file: what is written to it"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text = self.text + s

    def flush(self):
        pass

    def close(self):
        pass


def a_case(V, **more):
    """a running case in an arbitrary state"""
    T = V.cls("testcaserun", "TestCaseRun")
    conf = V.choose(2, "configuration") == 1
    t = V.new(T, out_line=V.str("line"), line_diff=V.opt(IntT, "diff mark"), line_error=V.opt(IntT, "error mark"), diffs=V.int("diffs"), errors=V.int("errors"),
              line_number=V.int("line number"), last_checked=V.bool("last checked"), exp_file_exists=V.bool("expectation exists"),
              exp_line=V.opt(StrT, "expected line"), exp_line_number=V.int("expected line number"), exp_tokens=None, verbose=conf, point_error_pos=conf,
              out=Sink(), rep=Sink(), output=Sink(), config={}, name="case", test_path="case", err=Sink(), log=None, exp=None, orig_err=None,
              orig_handlers=None, exp_base_dir="books", out_base_dir="out", exp_file_name="books/case.md", interactive=False, always_interactive=False)
    for k in more:
        setattr(t, k, more[k])
    V.assume(V.both(t.diffs >= 0, t.errors >= 0))
    for m in [t.line_diff, t.line_error]:
        if m is not None:
            V.assume(m >= 0)
    return t


def failed(V, t):
    return V.either(V.neg(t.errors == 0), V.neg(t.line_error is None))


def differed(V, t):
    return V.either(V.neg(t.diffs == 0), V.neg(t.line_diff is None))


def ensure_counters(V, t):
    V.ensure("the counters are never negative", V.both(t.diffs >= 0, t.errors >= 0))


def marks(V, t):
    return (t.errors, t.line_error, t.diffs, t.line_diff)


def same_marks(V, t, m):
    return V.both(t.errors == m[0], t.diffs == m[2], V.eq(t.line_error, m[1]), V.eq(t.line_diff, m[3]))


def plain_case(V, **more):
    """a running case whose marks are arbitrary, for calls that do not look at them"""
    T = V.cls("testcaserun", "TestCaseRun")
    t = V.new(T, out_line=V.str("line"), line_diff=V.any("diff mark"), line_error=V.any("error mark"), diffs=V.int("diffs"), errors=V.int("errors"),
              line_number=V.int("line number"), last_checked=V.bool("last checked"), exp_file_exists=True, exp_line=None, exp_line_number=1, exp_tokens=None,
              verbose=False, point_error_pos=False, out=Sink(), rep=Sink(), output=Sink(), config={}, name="case", test_path="case", err=Sink(), log=None, exp=None,
              orig_err=None, orig_handlers=None, exp_base_dir="books", out_base_dir="out", exp_file_name="books/case.md", interactive=False, always_interactive=False)
    for k in more:
        setattr(t, k, more[k])
    return t
