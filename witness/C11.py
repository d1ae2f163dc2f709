from wbook import *
import booktest.dependencies as deps

w = W("C11", "random dependency graphs and resources (ints, ports, named), random selections, completion orders, timings, crashes, failures with fail-fast and answers "
             "that stop the run; real scheduler with a pool whose tasks finish when the schedule says; non-trivial: a dependency in the run or a shared resource")

RES = [["int", 1], ["int", 2], ["port", 1], ["port", 8080], ["int", 8080], ["str", "db"], ["named", 5, "db"], ["named", 6, "gpu"], ["port", 8081]]


def resource(r):
    if r[0] == "port":
        return bt.port(r[1])
    if r[0] == "named":
        return bt.Resource(r[1], r[2])
    return bt.Resource(r[1])


def ident(r):
    return ["port", r[1]] if r[0] == "port" else r[-1]


def gen(r):
    n = r.randrange(1, 9)
    names = [pick(r, ["test/", "test/suite/", "book/"]) + "t%d" % k for k in range(n)]
    order = list(range(n))
    r.shuffle(order)
    d = [[] for _ in range(n)]
    for k in range(1, n):
        d[order[k]] = sorted(set(order[r.randrange(0, k)] for _ in range(pick(r, [0, 0, 1, 1, 2, 3]))))
    few = r.sample(RES, pick(r, [1, 2, 4]))
    res = [[pick(r, few) for _ in range(pick(r, [0, 0, 1, 1, 2]))] for _ in range(n)]
    c = {"parallel": pick(r, [True, 1, 2, 4])}
    if r.random() < .2:
        c["fail_fast"] = True
    if r.random() < .2:
        c["interactive"] = True
    if r.random() < .2:
        c["continue"] = True
    return dict(names=names, deps=d, res=res, beh=[pick(r, ["ok", "ok", "ok", "ok", "diff", "raise", "crash"]) for _ in names],
                selected=[k for k in r.sample(range(n), n) if r.random() < .85], config=c, answers=[pick(r, "cccq") for _ in range(6)],
                old=[[pick(r, names), pick(r, ["OK", "DIFF"]), pick(r, [0, 1, 50, 7])] for _ in range(r.randrange(0, 5))],
                ready=[pick(r, [0, 0, 0, 1, 1, 2, 5, 30]) for _ in range(n)])


def make(i, log):
    fs = []
    for k, name in enumerate(i["names"]):
        b = body("diff" if i["beh"][k] == "crash" else i["beh"][k], log, name)

        def f(t, *args, b=b, k=k):
            b(t)
            return k
        f.__name__ = name.split("/")[-1]
        fs.append(f)
    out = [None] * len(fs)

    def wrap(k):
        if out[k] is None:
            ds = [wrap(j) for j in i["deps"][k]] + [resource(r) for r in i["res"][k]]
            out[k] = bt.depends_on(*ds)(fs[k]) if ds else fs[k]
        return out[k]
    return [wrap(k) for k in range(len(fs))]


def runit(i):
    with scratch():
        log = []
        for n in i["names"]:
            write(f"books/{n}.md", EXP)
        write("books/.out/cases.txt", "".join(f"{n}\t{v}\t{d}\n" for n, v, d in i["old"]))
        tests = Tests(list(zip(i["names"], make(i, log))))
        at = {n: k for k, n in enumerate(i["names"])}
        old = parse_report("books/.out/cases.txt")
        sel = [i["names"][k] for k in i["selected"]]
        first = {}
        for n, v, _ in old:
            first.setdefault(n, v)
        todo = [n for n in sel if first.get(n) != "OK"] if i["config"].get("continue") else sel
        running, finished, errors, started = [], [], [], []

        class Task:
            def __init__(self, f, args, name, left):
                self.f, self.args, self.name, self.left, self.over = f, args, name, left, False

            def run(self):
                self.over = True
                if i["beh"][at[self.name]] != "crash":
                    try:
                        self.f(*self.args)
                    except BaseException:
                        pass
                running.remove(self)
                finished.append(self.name)

            def ready(self):
                if not self.over:
                    self.left -= 1
                    if self.left < 0:
                        self.run()
                return self.over

        class Pool(FakePool):
            def apply_async(self, f, args=(), kwds=None, **k):
                n = args[0]
                if n not in at:
                    errors.append(f"{n} is not a case")
                    return Task(lambda: 0, (), i["names"][0], 0)
                if n not in todo:
                    errors.append(f"{n} was started but is not part of the run")
                if n in started:
                    errors.append(f"{n} was started twice")
                for d in i["deps"][at[n]]:
                    if i["names"][d] in todo and i["names"][d] not in finished:
                        errors.append(f"{n} was started before its dependency {i['names'][d]} was done")
                for t in running:
                    for r in i["res"][at[n]]:
                        if ident(r) in [ident(x) for x in i["res"][at[t.name]]]:
                            errors.append(f"{n} was started while {t.name} runs with the same resource {ident(r)}")
                started.append(n)
                t = Task(f, args, n, i["ready"][at[n]])
                running.append(t)
                return t

        class MP:
            @staticmethod
            def get_context(*a):
                class C:
                    pass
                C.Pool = Pool
                return C
        c = i["config"]
        # a case also fails when the result of a dependency is missing
        bad = any(i["beh"][at[n]] != "ok" for n in todo) or any(i["names"][d] not in todo for n in todo for d in i["deps"][at[n]])
        stopped = c.get("fail_fast") and bad or c.get("interactive") and bad and ("q" in i["answers"] or len(todo) > 6)
        oldmp, oldc = runs.multiprocessing, runs.PROCESS_LOCAL_CACHE
        box = {}

        def go():
            try:
                with answers(i["answers"]):
                    box["rv"] = runs.parallel_run_tests("books", "books/.out", tests, list(sel), dict(i["config"]), BookTestSetup())
            except BaseException as ex:
                box["ex"] = ex
        runs.multiprocessing, runs.PROCESS_LOCAL_CACHE = MP, LruCache(8)
        try:
            with quiet():
                th = threading.Thread(target=go, daemon=True)
                th.start()
                th.join(30)
        finally:
            runs.multiprocessing, runs.PROCESS_LOCAL_CACHE = oldmp, oldc
        check(not errors, "; ".join(errors[:4]))
        check(not th.is_alive(), f"the run does not end: started {started}, finished {finished}, to be run {todo}")
        check("ex" not in box, f"the run ended with {box.get('ex')!r}")
        if not stopped:
            check(sorted(finished) == sorted(todo), f"the run ended without an abort, but not every case was started and finished: {finished} of {todo}")


def eqs(i):
    a, b = i
    same = ident(a) == ident(b)
    x, y = resource(a), resource(b)
    check((x == y) == same and (x != y) != same, f"{a} and {b}: equality of the resources is {x == y}")
    check(len({x} & {y}) == (1 if same else 0), f"{a} and {b}: the same resource is {same}, but the sets say otherwise")


w.fixed("equality", [[a, b] for a in RES for b in RES], eqs)
w.case("run", gen, runit)
w.main()
