import importlib
from wbook import *
from booktest.dependencies import depends_on, Resource, port
from booktest.cache import LruCache, NoCache

w = W("C12", "random dependency graphs over function tests and methods of several instances of test books, with resources, run over several invocations "
             "with failing tests in between, with every kind of cache and with an empty one in later invocations; non-trivial: a dependency is read from disk")

VALUES = [0, 1, -3, "", "x", "säö", 2.5, [], [1, [2]], {}, {"a": 1}, (1, 2), True, False, b"\0\xff", set(), {3}]


def gen(r):
    nf = r.randrange(1, 5)
    nodes = []
    for i in range(nf):
        deps = [pick(r, ["res%d" % r.randrange(3)] + ["f%d" % j for j in range(i)]) for _ in range(r.randrange(0, 4))]
        nodes.append(["f%d" % i, deps, r.random() < .4, r.random() < .3])
    mdeps = [pick(r, ["base", "res1"] + ["f%d" % j for j in range(nf)]) for _ in range(r.randrange(1, 4))]
    odeps = [pick(r, ["base", "user", "f0", "res0"]) for _ in range(r.randrange(1, 4))]
    tdeps = [pick(r, ["base", "user", "f0", "res2"]) for _ in range(r.randrange(1, 4))]
    insts = r.randrange(1, 4)
    names = [n[0] for n in nodes] + ["bk%d/%s" % (i, m) for i in range(insts) for m in ("base", "user")] + ["ot/other", "tail"]
    runs = []
    for k in range(r.randrange(1, 4)):
        sel = [n for n in names if k == 0 and r.random() < .95 or k > 0 and r.random() < .6]
        runs.append(dict(cache=pick(r, ["dict", "lru1", "lru2", "lru9", "none"]), sel=sel, fresh=r.random() < .7,
                         verdicts={n: pick(r, ["OK", "OK", "DIFF", "DIFF", "FAIL", "RAISE"]) for n in names},
                         values={n: r.randrange(len(VALUES)) for n in names}))
    return dict(nodes=nodes, mdeps=mdeps, odeps=odeps, tdeps=tdeps, insts=insts, runs=runs, names=names)


def build(i, log, cur):
    res = [Resource(10, "a"), port(7001), Resource(None, "n")]
    fs = {}

    def act(name, t, args):
        log.append((name, list(args)))
        t.tln("x")
        v = cur["verdicts"][name]
        if v == "FAIL":
            t.fail()
            t.tln("y")
        if v == "RAISE":
            raise ValueError("boom")
        if v == "OK":
            t.tln("y")
        return VALUES[cur["values"][name]]

    def of(d):
        return res[int(d[3:])] if d.startswith("res") else (fs[d] if d in fs else methods[d])

    methods = {}
    cases = []

    def mk(name, deps, is_async):
        if is_async:
            async def f(t, *args):
                return act(name, t, args)
        else:
            def f(t, *args):
                return act(name, t, args)
        f.__name__ = "test_" + name
        return depends_on(*[of(d) for d in deps])(f) if deps else f

    def wrap(f):
        import functools

        @functools.wraps(f)
        async def g(*a, **k):
            from booktest.coroutines import maybe_async_call
            return await maybe_async_call(f, a, k)
        g._original_function = f
        return g
    for name, deps, is_async, wrapped in i["nodes"]:
        f = mk(name, deps, is_async)
        fs[name] = wrap(f) if wrapped else f
        cases.append([name, fs[name]])

    class Bk(bt.TestBook):
        def test_base(self, t, *args):
            return act(self.nm + "/base", t, args)

        def __init__(self, nm):
            self.nm = nm
            super().__init__(nm)
    methods["base"] = Bk.test_base

    def user(self, t, *args):
        return act(self.nm + "/user", t, args)
    user.__name__ = "test_user"
    Bk.test_user = depends_on(*[of(d) for d in i["mdeps"]])(user)
    Bk.member_names = list(Bk.member_names) + ["test_user"]
    methods["user"] = Bk.test_user

    class Other(bt.TestBook):
        def __init__(self):
            super().__init__("ot")

        def test_none(self, t):
            pass

    def other(self, t, *args):
        return act("ot/other", t, args)
    other.__name__ = "test_other"
    Other.test_other = depends_on(*[of(d) for d in i["odeps"]])(other)
    Other.member_names = [m for m in Other.member_names if m != "test_none"] + ["test_other"]
    for k in range(i["insts"]):
        cases += Bk("bk%d" % k).cases
    cases += Other().cases
    cases.append(["tail", mk("tail", i["tdeps"], False)])
    return Tests(cases), res


def expect(i, name, stored, res):
    """the values of the dependencies, or None when one is missing"""
    if name.startswith("bk"):
        me, m = name.split("/")
        deps = [] if m == "base" else i["mdeps"]
    elif name == "ot/other":
        me, deps = None, i["odeps"]
    elif name == "tail":
        me, deps = None, i["tdeps"]
    else:
        me, deps = None, [n for n in i["nodes"] if n[0] == name][0][1]
    out = []
    for d in deps:
        if d.startswith("res"):
            out.append(res[int(d[3:])].value)
            continue
        src = d if d in [n[0] for n in i["nodes"]] else (me + "/" + d if me else "bk0/" + d)
        if src not in stored:
            return None
        out.append(stored[src])
    return out


def run(i):
    with scratch(), quiet():
        log = []
        cur = {}
        tests, res = build(i, log, cur)
        for n in i["names"]:
            write(f"books/{n}.md", "x\ny\n")
        stored = {}
        cache = None
        for k, r in enumerate(i["runs"]):
            cur.clear()
            cur.update(r)
            if cache is None or r["fresh"]:
                cache = {"dict": dict, "lru1": lambda: LruCache(1), "lru2": lambda: LruCache(2), "lru9": lambda: LruCache(9), "none": NoCache}[r["cache"]]()
            log.clear()
            runs.run_tests("books", "books/.out", tests, r["sel"], {}, cache, BookTestSetup())
            want = []
            for n in r["sel"]:
                e = expect(i, n, stored, res)
                if e is None:
                    continue
                want.append((n, e))
                if r["verdicts"][n] in ("OK", "DIFF"):
                    stored[n] = VALUES[r["values"][n]]
            check([n for n, _ in log] == [n for n, _ in want], f"invocation {k}: bodies run {[n for n, _ in log]}, expected {[n for n, _ in want]}")
            for (n, a), (_, b) in zip(log, want):
                check(len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b)), f"invocation {k}: {n} received {a!r}, expected {b!r}")


def run_parallel(i):
    """the same with every test in its own batch, as a parallel run does (a worker process serves one run)"""
    with scratch() as d, quiet():
        log = []
        cur = {}
        tests, res = build(i, log, cur)
        for n in i["names"]:
            write(f"books/{n}.md", "x\ny\n")
        r = i["runs"][0]
        cur.update(r)
        stored = {}
        want = []
        b = runs.RunBatch(d + "/books", d + "/books/.out", tests, {}, BookTestSetup())
        for n in i["names"]:
            os.makedirs(runs.case_batch_dir_and_report_file(d + "/books/.out/.batches", n)[0], exist_ok=True)
            b(n)
            e = expect(i, n, stored, res)
            if e is not None:
                want.append((n, e))
                if r["verdicts"][n] in ("OK", "DIFF"):
                    stored[n] = VALUES[r["values"][n]]
        check([(n, a) for n, a in log] == want, f"batches: received {log!r}, expected {want!r}")


def none_result():
    """known finding: the value None is not stored on disk"""
    out = []
    with scratch(), quiet():
        def a(t):
            t.tln("x")

        @depends_on(a)
        def b(t, v):
            out.append(v)
            t.tln("x")
        tests = Tests([["a", a], ["b", b]])
        runs.run_tests("books", "books/.out", tests, ["a", "b"], {}, NoCache(), BookTestSetup())
    return out != [None]


if __name__ == "__main__":
    w.known("none-result", none_result)
    w.case("graph", gen, run, 5)
    w.case("batches", gen, run_parallel, 1)
    w.main()
