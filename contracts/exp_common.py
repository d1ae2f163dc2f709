"""The position in the expectation file: line n (counted from 0; n == number of lines at the end), token k of that line."""
from contracts.case_common import *
from hints.exp import *


class Reader:
    """an open expectation file: its lines, in order, each ended by a newline (the last one possibly not)"""

    def __init__(self, L, at, last):
        self.L, self.at, self.last, self.closed = L, at, last, False

    def readline(self):
        if self.at < len(self.L):
            x = self.L[self.at]
            self.at = self.at + 1
            if self.at == len(self.L) and self.last:
                return x
            return x + "\n"
        return ""

    def close(self):
        self.closed = True


class Toks:
    """the tokens of one line, from the first one on"""

    def __init__(self, line):
        self.line, self.k = line, 0


def expectation(V):
    """lines of an arbitrary expectation file"""
    L = V.list(StrT, "expected lines")
    last = V.bool("last line is not ended")
    if len(L) > 0:
        V.assume(V.implies(last, V.both(V.neg(L[len(L) - 1].endswith("\n")), len(L[len(L) - 1]) > 0)))
    M = V.mod("testcaserun")

    def opening(name, mode="r"):
        V.ensure("only the expectation file is read", V.both(name == "books/case.md", mode == "r"))
        return Reader(L, 0, last)
    V.patch(M, "open", opening)
    V.patch(M, "TestTokenizer", lambda line: line)
    V.patch(M, "BufferIterator", Toks)
    return L, last


def place(V, t, L, last, n):
    """put the comparison at the start or in the middle of line n"""
    V.assume(V.both(0 <= n, n <= len(L)))
    t.exp_line_number = n + 1
    if n < len(L):
        t.exp = Reader(L, n + 1, last)
        t.exp_line = L[n]
        t.exp_tokens = Toks(L[n])
        t.exp_tokens.k = V.int("token")
    else:
        t.exp = None
        t.exp_line = None
        t.exp_tokens = None


def placed(V, t, L, n, what):
    """the comparison is at line n"""
    V.ensure(what + ": the line number", t.exp_line_number == n + 1)
    if n < len(L):
        V.ensure(what + ": the line", V.both(t.exp_line is not None, V.eq(t.exp_line, L[n])))
        V.ensure(what + ": reading continues with the next line", V.both(t.exp is not None, t.exp is None or V.both(t.exp.at == n + 1, V.neg(t.exp.closed))))
        V.ensure(what + ": the tokens are those of the line", V.both(t.exp_tokens is not None, t.exp_tokens is None or V.eq(t.exp_tokens.line, L[n])))
    else:
        V.ensure(what + ": at the end", V.both(t.exp_line is None, t.exp_tokens is None))


class LineTokens:
    """the tokens of the expected line that are left, k of them read (the contract of BufferIterator, see C01)"""

    def __init__(self, Y, k):
        self.Y, self.k = Y, k

    def has_next(self):
        return self.k < len(self.Y)

    @property
    def head(self):
        return self.Y[self.k] if self.k < len(self.Y) else None

    def __next__(self):
        if self.k >= len(self.Y):
            raise StopIteration()
        x = self.Y[self.k]
        self.k = self.k + 1
        return x
