from wlib import *
import itertools
import signal
from booktest.tokenizer import TestTokenizer, BufferIterator

w = W("C01", "all texts of up to 3 characters over 16 characters, then random texts of up to 40 characters; iterators of random items; non-trivial: non-empty text")
AL = ["a", "Z", "0", "7", "+", "-", ".", " ", "\t", "\n", "\0", "_", "\u00e4", "\u00b2", "\u0663", "\U0001F600", "1", "#", "\r", "\u3000"]


def toks(it, limit):
    out = []
    for x in it:
        out.append(x)
        if len(out) > limit:
            raise Fail("tokenizing does not end")
    return out


def run(t):
    signal.alarm(20)
    ts = toks(TestTokenizer(t), len(t))
    check(all(len(x) > 0 for x in ts), f"empty token in {ts!r}")
    check("".join(ts) == t, f"tokens {ts!r} of {t!r}")
    b = BufferIterator(TestTokenizer(t))
    items(b, ts)
    signal.alarm(0)


def items(b, ts):
    got = []
    while len(got) <= len(ts):
        check(b.has_next() == (len(got) < len(ts)), f"has_next is {b.has_next()} after {len(got)} of {ts!r}")
        if len(got) < len(ts):
            check(b.head == ts[len(got)], f"head {b.head!r}, next item {ts[len(got)]!r}")
        try:
            got.append(next(b))
        except StopIteration:
            break
    check(got == ts, f"items {got!r}, expected {ts!r}")
    for _ in range(2):
        check(not b.has_next(), "has_next after the end")
        try:
            next(b)
            raise Fail("an item after the end")
        except StopIteration:
            pass


def run_items(l):
    items(BufferIterator(iter(l)), l)
    check(list(BufferIterator(iter(l))) == l, f"iterating the wrapper over {l!r}")
    b = BufferIterator(iter(l))
    check(iter(b) is b or list(iter(b)) == l, "iter of the wrapper")


def alarm(*a):
    raise Fail("tokenizing does not end")


signal.signal(signal.SIGALRM, alarm)
w.fixed("short", ["".join(x) for n in range(4) for x in itertools.product(AL[:16], repeat=n)], run)
w.case("text", lambda r: words(r, r.randrange(0, 40), AL), run, 50)
w.case("items", lambda r: [pick(r, ["a", "", None, 0, False, "b", 1]) for _ in range(r.randrange(0, 6))], run_items, 20)
w.main()
