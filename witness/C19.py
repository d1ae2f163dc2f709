import asyncio
import builtins
import importlib
from wbook import *
from booktest.utils import setup_teardown, combine_decorators

w = W("C19", "random nestings of setup/teardown decorators over tests that end in every way; combined decorators; sequential and parallel projects "
             "with a guarded setup; projects whose setup is detected from __booktest__.py; non-trivial: the guarded code raises")


class Boom(Exception):
    pass


ENDS = {"return": None, "raise": Boom, "exit": SystemExit, "interrupt": KeyboardInterrupt, "stop": StopIteration, "generator": GeneratorExit}
# a StopIteration cannot come out of a coroutine unchanged
ENDK = ["return", "raise", "exit", "interrupt", "generator"]


def gen_of(log, name, form):
    if form == "plain":
        def g():
            log.append("+" + name)
            yield
            log.append("-" + name)
    elif form == "value":
        def g():
            log.append("+" + name)
            yield 42
            log.append("-" + name)
            return "x"
    else:
        class G:
            def __init__(self):
                self.n = 0

            def __iter__(self):
                return self

            def __next__(self):
                self.n += 1
                if self.n == 1:
                    log.append("+" + name)
                    return None
                log.append("-" + name)
                raise StopIteration()
        g = G
    return g


def gen_nest(r):
    return dict(forms=[pick(r, ["plain", "value", "class"]) for _ in range(r.randrange(1, 5))], end=pick(r, ENDK), is_async=r.random() < .5,
                combined=r.random() < .5, calls=r.randrange(1, 4), args=r.randrange(0, 3), kw=r.random() < .4)


def run_nest(i):
    log = []
    exc = ENDS[i["end"]]
    ex = exc() if exc else None
    obj = object()
    got = []

    def f(*a, **k):
        log.append("body")
        got.append((a, k))
        if ex is not None:
            raise ex
        return obj

    async def af(*a, **k):
        await asyncio.sleep(0)
        return f(*a, **k)
    g = af if i["is_async"] else f
    decs = [setup_teardown(gen_of(log, str(n), fm)) for n, fm in enumerate(i["forms"])]
    if i["combined"]:
        g = combine_decorators(*decs)(g)
    else:
        for d in decs:
            g = d(g)
    names = [str(n) for n in range(len(decs))]
    expect = ["+" + n for n in reversed(names)] + ["body"] + ["-" + n for n in names]
    args = tuple(object() for _ in range(i["args"]))
    kw = dict(k=object()) if i["kw"] else {}
    for c in range(i["calls"]):
        del log[:], got[:]
        out = raised = None
        try:
            out = drive(g(*args, **kw))
        except BaseException as e:
            raised = e
        check(log == expect, f"call {c}: {log}, expected {expect}")
        check(len(got) == 1 and got[0] == (args, kw), "arguments changed")
        if ex is None:
            check(raised is None and out is obj, f"result {out!r}, raised {raised!r}")
        else:
            check(raised is ex, f"raised {raised!r} instead of {ex!r}")


def drive(coro):
    while True:
        try:
            coro.send(None)
        except StopIteration as s:
            return s.value


def run_combine(i):
    def dec(n):
        return lambda v: v + [n]
    got = combine_decorators(*[dec(n) for n in i])([])
    check(got == list(i), f"applied {got}, expected {i}")


def gen_proj(r):
    i = gen_project(r)
    i["config"] = {k: v for k, v in i["config"].items() if k not in ("coverage",)}
    return i


def run_proj(i):
    with scratch():
        tests, log = project(i["cases"], i["old"], i["garbage"])
        old = parse_report("books/.out/cases.txt")

        def g():
            log.append("+")
            yield
            log.append("-")
        run(tests, i["selected"], dict(i["config"]), i["parallel"], i["answers"], setup=BookTestSetup(g), delays=i.get("delays", ()), crash=i.get("crash", ()))
        if i["parallel"]:
            exp = sorted(n for n in log if n not in "+-")
            check(log == [x for n in [m for m in log if m not in "+-"] for x in ("+", n, "-")], f"every batch: setup, case, teardown; got {log}")
            check(len(exp) == len(set(exp)), f"case run twice: {log}")
        else:
            todo = plan_of(i, old)
            check(log[:1] == ["+"] and log[-1:] == ["-"] and log.count("+") == 1 and log.count("-") == 1, f"setup and teardown around the run: {log}")
            check(log[1:-1] == todo[:len(log) - 2], f"cases {log}")


N = [0]


def gen_main(r):
    return dict(beh=[pick(r, ["ok", "raise", "ok", "exit"]) for _ in range(r.randrange(1, 4))], setup=r.random() < .85, parallel=False, extra=r.random() < .3,
                sub=r.random() < .3)


def run_main(i):
    import sys
    import booktest.cli as cli
    import booktest.config
    N[0] += 1
    pkg = f"vt19_{os.getpid()}_{N[0]}"
    builtins.LOG19 = log = []
    with scratch() as d:
        src = "import booktest as bt, builtins, sys\n"
        for n, b in enumerate(i["beh"]):
            act = dict(ok="pass", **{"raise": "raise ValueError('x')", "exit": "sys.exit(0)"})[b]
            src += f"def test_{n}(t):\n    builtins.LOG19.append('t{n}')\n    t.tln('x')\n    {act}\n"
        write(f"{pkg}/a_test.py", src)
        if i["setup"]:
            write(f"{pkg}/{'sub/' if i['sub'] else ''}__booktest__.py",
                  "import builtins\n" + ("X = 1\ndef other():\n    pass\n" if i["extra"] else "") +
                  "def process_setup_teardown():\n    builtins.LOG19.append('+')\n    yield\n    builtins.LOG19.append('-')\n")
        write(".booktest", f"test_paths={pkg}\ndefault_tests={pkg}\n")
        old = list(sys.path)
        try:
            sys.path.insert(0, d)
            importlib.invalidate_caches()
            booktest.config.DEFAULT_CONFIG = None
            with quiet() as o, answers([]):
                rv = cli.main([])
        finally:
            sys.path[:] = old
            for m in [m for m in sys.modules if m.startswith(pkg)]:
                del sys.modules[m]
        exp = [f"t{n}" for n in range(len(i["beh"]))]
        check(log == (["+"] + exp + ["-"] if i["setup"] else exp), f"ran {log}, exit status {rv}, printed {o.getvalue()[:500]}")


w.case("nested setup/teardown", gen_nest, run_nest, 20)
w.case("combine", lambda r: [r.randrange(9) for _ in range(r.randrange(0, 8))], run_combine, 10)
w.case("project", gen_proj, run_proj, 3)
w.case("detected setup", gen_main, run_main, 1)
w.main()
