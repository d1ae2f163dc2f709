"""Runs one test case, given as a list of calls, through the real code; and a reference of what the comparison must do."""
import re
import asyncio
from wbook import *
from booktest.testrun import TestRun

TOK = re.compile(r"[ \t]+|[+-]?[0-9]+(?:\.[0-9]+)?|[A-Za-z0-9]+|.", re.S)


def toks(s):
    return TOK.findall(s)


def lines_of(text):
    ls = text.split("\n")
    if ls[-1] == "":
        ls.pop()
    return ls


class Ref:
    """the comparison, from its description: a position in the expected lines, and a token position in the line there"""

    def __init__(self, text):
        self.L = None if text is None else lines_of(text)
        self.p, self.k = 0, 0
        self.fresh()
        self.diffs, self.fails = 0, 0
        self.out, self.line = "", ""
        self.n = 0
        self.checked = False

    def at(self):
        return self.L[self.p] if self.L is not None and self.p < len(self.L) else None

    def fresh(self):
        self.tokens = None if self.at() is None else toks(self.at())
        self.k = 0

    def go(self, p):
        if self.L is not None:
            self.p = min(p, len(self.L))
            self.fresh()

    def expected(self):
        if self.tokens is None:
            return None
        if self.k < len(self.tokens):
            self.k += 1
            return self.tokens[self.k - 1]
        return "\n"

    def token(self, t, check):
        e = self.expected()
        if check and self.L is not None and e != t:
            self.diffs += 1
        self.checked = check
        if t == "\n":
            self.end_line()
        else:
            self.line += t

    def end_line(self):
        self.out += self.line + "\n"
        self.line = ""
        self.n += 1
        self.go(self.p + 1)

    def text(self, s, check):
        for t in toks(s):
            self.token(t, check)

    def seek(self, ok):
        """the nearest matching line at or after the position, else the first one before it, else stay"""
        if self.L is None:
            return True
        for j in range(self.p, len(self.L)):
            if ok(self.L[j]):
                if j != self.p:
                    self.go(j)
                return True
        for j in range(self.p):
            if ok(self.L[j]):
                self.go(j)
                return True
        self.go(self.p)
        return False

    def sought(self, found, s):
        """an anchor that is not there is a difference"""
        if not found:
            self.diffs += 1

    def anchor(self, s):
        self.sought(self.seek(lambda l: l.startswith(s)), s)
        self.text(s, True)

    def anchorln(self, s):
        self.sought(self.seek(lambda l: l == s), s)
        self.text(s + "\n", True)

    def header(self, s):
        if self.n > 0:
            self.token("\n", self.checked and self.at() is not None)
        self.anchorln(s)
        self.text("\n", True)

    def tset(self, items, prefix=" * "):
        if self.L is not None:
            there = []
            while self.at() is not None and self.at().startswith(prefix):
                there.append(self.at()[len(prefix):])
                self.go(self.p + 1)
            if set(there) != set(map(str, items)):
                self.diffs += 1
            end = self.p
        for i in items:
            self.text(prefix + str(i) + "\n", False)
        if self.L is not None:
            self.go(end)

    def must(self, c):
        if not c:
            self.fails += 1

    def op(self, o):
        k, a = o[0], o[1:]
        if k == "t" or k == "tformat_str":
            self.text(a[0], True)
        elif k == "tln":
            self.text(a[0] + "\n", True)
        elif k == "i":
            self.text(a[0], False)
        elif k == "iln":
            self.text(a[0] + "\n", False)
        elif k == "diff":
            self.diffs += 1
        elif k == "fail":
            self.fails += 1
        elif k == "anchor":
            self.anchor(a[0])
        elif k == "anchorln":
            self.anchorln(a[0])
        elif k == "h":
            self.header("#" * a[0] + " " + a[1])
        elif k == "kv":
            self.anchor(a[0])
            self.text(" " + a[1] + "\n", True)
        elif k == "tlist":
            for x in a[0]:
                self.text(f" * {x}\n", True)
        elif k == "tset":
            self.tset(a[0])
        elif k == "assert":
            self.must(a[0])
            if a[0]:
                self.text("ok\n", False)
            else:
                self.text("FAILED\n" if a[1] is None else a[1] + "\n", False)
        elif k == "err":
            pass
        else:
            raise NotImplementedError(k)

    def verdict(self):
        if self.fails:
            return "FAIL"
        return "DIFF" if self.diffs or self.L is None else "OK"

    def output(self):
        return self.out + (self.line + "\n" if self.line else "")


def do(t, o):
    k, a = o[0], o[1:]
    if k in ("t", "tln", "i", "iln", "anchor", "anchorln", "diff", "fail", "h", "tlist", "tset"):
        getattr(t, k)(*a)
    elif k == "kv":
        t.keyvalueln(*a)
    elif k == "assert":
        t.assertln(*a)
    elif k == "must_equal":
        t.must_equal(a[0], a[1])
    elif k == "must_contain":
        t.must_contain(a[0], a[1])
    elif k == "must_be_a":
        t.must_be_a(a[0], dict(str=str, int=int, list=list)[a[1]])
    elif k == "it":
        it = t.it(a[0], a[1])
        dict(equal=it.must_equal, contain=it.must_contain)[a[2]](a[3])
    elif k == "apply":
        t.must_apply(a[0], "cond", lambda x: a[1])
    elif k == "tms":
        t.tmsln(lambda: None, a[0])
    elif k == "ims":
        t.imsln(lambda: None)
    elif k == "tformat":
        t.tformat(a[0])
    elif k == "err":
        print(a[0], file=sys.stderr)
    elif k == "logw":
        logging.warning(a[0])
    elif k == "file":
        write(t.file(a[0]), a[1])
    else:
        raise NotImplementedError(k)


class MyExit(BaseException):
    pass


def finish(end):
    if end == "raise":
        raise ValueError("boom")
    if end == "assert":
        assert False
    if end == "exit":
        sys.exit(0)
    if end == "quit":
        sys.exit("bye")
    if end == "stop":
        raise StopIteration()
    if end == "return":
        return 7


def run_ops(ops, exp, config=None, end="return", name="case", ans=(), after=None, is_async=False):
    """in the current directory; returns dict(verdict, recorded, output, log)"""
    if exp is not None:
        write(f"books/{name}.md", exp)

    seen = []

    def f(t):
        for o in ops:
            do(t, o)
            if after is not None:
                seen.append(after(t))
        return finish(end)

    async def af(t):
        return f(t)
    case = af if is_async else f
    tr = TestRun("books", "books/.out", "books/.out", Tests([(name, case)]), [name], dict(config or {}), {}, io.StringIO())
    with quiet(), answers(ans):
        verdict, ask, _ = asyncio.run(tr.run_case(name, case))
    out = f"books/.out/{name}.md"
    e = f"books/{name}.md"
    return dict(verdict=verdict.name, ask=ask.name if ask is not None else None, output=read(out) if os.path.exists(out) else None,
                exp=read(e) if os.path.exists(e) else None, seen=seen)


WORDS = ["a", "b", "ab", "x1", "key", "key=", "1", "-2.5", "+3", "1.", "..", "a  b", "\tz", "# t", "## u", " * a", " * b", "", " ", "end", "a-b", "0.10"]


def text(r, nl=False):
    s = pick(r, ["", " "]).join(pick(r, WORDS) for _ in range(r.randrange(0, 4)))
    return s + "\n" + pick(r, WORDS) if nl and r.random() < .2 else s
