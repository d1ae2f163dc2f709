import builtins
from wbook import *

w = W("C18", "random sequences of cases that write to standard error and to loggers, replace or close streams and handlers, move through the expectation file, and end "
             "in every way, with random handlers and formatters installed before; non-trivial: the test replaces a stream or raises")

ACTS = ["err", "log", "print", "replace_err", "addhandler", "clearhandlers", "tln", "iln", "h1", "anchor", "tset", "t", "fail", "diff", "close_err", "level", "child"]


def gen_case(r, k):
    return dict(name=pick(r, ["", "a/", "a/b/"]) + f"c{k}", acts=[pick(r, ACTS) for _ in range(r.randrange(0, 8))], end=pick(r, ["return", "return", "raise", "exit", "open"]),
                exp=pick(r, [None, "", "# t\n\nx\n", "x", " * a\n * b\nx\n", "y\n# t\n\nkey v\n"]), is_async=r.random() < .3)


def gen(r):
    return dict(cases=[gen_case(r, k) for k in range(r.randrange(1, 4))], handlers=r.randrange(0, 3), fmt=r.random() < .5,
                config={k: True for k in ["verbose", "print_logs", "accept", "update", "point_error_pos", "fail_fast"] if r.random() < .3})


class Err(io.StringIO):
    pass


def run(i):
    with scratch(), quiet():
        logger = logging.getLogger()
        keep = logger.handlers, sys.stderr, logger.level
        hs = []
        bufs = []
        for k in range(i["handlers"]):
            b = io.StringIO()
            h = logging.StreamHandler(b)
            if i["fmt"]:
                h.setFormatter(logging.Formatter("FMT %(message)s"))
            hs.append(h)
            bufs.append(b)
        logger.handlers = list(hs)
        err = sys.stderr = Err()
        opened = []
        real_open = builtins.open

        def tracking(*a, **k):
            f = real_open(*a, **k)
            opened.append((a[0], f))
            return f
        seen = {}
        problems = []

        def mk(c):
            def f(t):
                stderr_now = sys.stderr
                if getattr(stderr_now, "name", None) != os.path.join("books/.out", c["name"] + ".log"):
                    problems.append(f"{c['name']}: stderr goes to {stderr_now!r}")
                if len(logger.handlers) != 1 or logger.handlers[0] in hs:
                    problems.append(f"{c['name']}: root handlers {logger.handlers}")
                expect = seen.setdefault(c["name"], [])
                ok_err = ok_log = True
                for n, a in enumerate(c["acts"]):
                    m = f"{c['name']}#{n}!"
                    if a == "err" or a == "print":
                        if not sys.stderr.closed:
                            (sys.stderr.write(m + "\n") if a == "err" else print(m, file=sys.stderr))
                            if ok_err:
                                expect.append(m)
                    elif a == "log" or a == "child":
                        (logging if a == "log" else logging.getLogger("x.y")).warning(m)
                        if ok_log and not stderr_now.closed:
                            expect.append(m)
                    elif a == "replace_err":
                        sys.stderr = io.StringIO()
                        ok_err = False
                    elif a == "addhandler":
                        logger.addHandler(logging.NullHandler())
                    elif a == "clearhandlers":
                        logger.handlers.clear()
                        logger.addHandler(logging.NullHandler())
                        ok_log = False
                    elif a == "close_err" and n == len(c["acts"]) - 1:
                        sys.stderr.flush()
                    elif a == "tset":
                        t.tset(["b", "a"])
                    elif a == "h1":
                        t.h1("t")
                    elif a == "anchor":
                        t.keyvalueln("key", "v")
                    elif a in ("tln", "iln", "t"):
                        getattr(t, a)("x")
                    elif a in ("fail", "diff"):
                        getattr(t, a)()
                if c["end"] == "raise":
                    raise ValueError("boom")
                if c["end"] == "exit":
                    sys.exit(3)
                if c["end"] == "open":
                    t.t("open end")

            async def af(t):
                f(t)
            return af if c["is_async"] else f
        fs = [(c["name"], mk(c)) for c in i["cases"]]
        for c in i["cases"]:
            if c["exp"] is not None:
                write(f"books/{c['name']}.md", c["exp"])
        tests = Tests(fs)
        cfg = dict(i["config"])
        cfg.pop("fail_fast", None)
        from booktest.testrun import TestRun
        import asyncio
        tr = TestRun("books", "books/.out", "books/.out", tests, [n for n, _ in fs], cfg, {}, io.StringIO())
        builtins.open = tracking
        try:
            for name, f in fs:
                asyncio.run(tr.run_case(name, f))
                check(sys.stderr is err, f"after {name}: stderr is {sys.stderr!r}")
                check(logger.handlers == hs and all(a is b for a, b in zip(logger.handlers, hs)), f"after {name}: handlers {logger.handlers}")
                check(not err.closed, f"after {name}: stderr is closed")
                for p, fl in opened:
                    check(fl.closed, f"after {name}: {p} is still open")
                del opened[:]
                text = read(os.path.join("books/.out", name + ".log"))
                for m in seen.get(name, []):
                    check(text.count(m) == 1, f"{name}: {m} is {text.count(m)} times in the log")
                for o in seen:
                    if o != name:
                        check(o + "#" not in text, f"{name}: log of {o} in it")
            check(err.getvalue() == "", f"standard error of the caller got {err.getvalue()!r}")
            check(all(b.getvalue() == "" for b in bufs), "the caller's handlers got records of a test")
            logging.warning("after")
            for b in bufs:
                check("after" in b.getvalue(), "the caller's handlers do not work after the run")
            check(not problems, "; ".join(problems))
        finally:
            builtins.open = real_open
            logger.handlers, sys.stderr = keep[0], keep[1]


if __name__ == "__main__":
    w.case("case", gen, run, 1)
    w.main()
