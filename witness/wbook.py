"""Runs small projects through the real code, in process, in a scratch directory."""
import builtins
import contextlib
import io
import logging
import os
import shutil
import sys
import tempfile
import threading
from wlib import *
import booktest as bt
import booktest.runs as runs
import booktest.review as brev
import booktest.reports as reports
from booktest.reports import CaseReports, TestResult
from booktest.tests import Tests
from booktest.cache import LruCache
from booktest.detection import BookTestSetup

logging.getLogger().addHandler(logging.NullHandler())
CUR = threading.local()
LOGS = {}


class FakeTask:
    def __init__(self, n):
        self.n = n

    def ready(self):
        self.n -= 1
        return self.n < 0


class FakePool:
    """runs every task at once, in the scheduler's thread; readiness is delayed"""
    delays = []
    started = []
    crash = set()

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def apply_async(self, f, args=(), **k):
        FakePool.started.append(args[0])
        if args[0] not in FakePool.crash:
            try:
                f(*args)
            except BaseException:
                pass
        d = FakePool.delays.pop(0) if FakePool.delays else 0
        return FakeTask(d)

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        pass


class FakeMP:
    @staticmethod
    def get_context(*a):
        class C:
            Pool = FakePool
        return C


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="p-", dir=os.getcwd())
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


class Ask(Exception):
    pass


@contextlib.contextmanager
def answers(lst):
    """input() answers"""
    left = list(lst)
    old = builtins.input

    def inp(prompt=""):
        if not left:
            return "q"
        return left.pop(0)
    builtins.input = inp
    try:
        yield left
    finally:
        builtins.input = old


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    hs = logging.getLogger().handlers
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = o, e


EXP = "# title\n\nline one\n"


def body(beh, log, name):
    def test(t):
        log.append(name)
        t.h1("title")
        if beh == "ok" or beh == "noexp":
            t.tln("line one")
        elif beh == "diff":
            t.tln("line two")
        elif beh == "openend":
            t.tln("line one")
            t.t("extra")
        elif beh == "fail":
            t.tln("line one")
            t.fail()
            t.tln("x")
        elif beh == "openfail":
            t.tln("line one")
            t.fail()
        elif beh == "assert":
            t.tln("line one")
            t.t("holds ").assertln(False)
        elif beh == "raise":
            t.tln("line one")
            raise ValueError("boom")
        elif beh == "exit":
            t.tln("line one")
            sys.exit(0)
        elif beh == "diffraise":
            t.tln("line two")
            raise Exception("boom")
    test.__name__ = name.split("/")[-1]
    return test


VERDICT = dict(ok="OK", noexp="DIFF", diff="DIFF", fail="FAIL", openfail="FAIL", openend="DIFF", exit="FAIL", diffraise="FAIL", crash="FAIL", **{"raise": "FAIL", "assert": "FAIL"})
BEHS = ["ok", "ok", "ok", "noexp", "diff", "fail", "raise", "exit", "assert", "openfail", "openend", "diffraise"]


def write(p, s):
    os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
    with open(p, "w") as f:
        f.write(s)


def read(p):
    with open(p) as f:
        return f.read()


def parse_report(p):
    """independent reader of a case report"""
    out = []
    if os.path.exists(p):
        for l in read(p).split("\n"):
            x = l.split("\t")
            if len(x) >= 3 and x[1] in ("OK", "DIFF", "FAIL"):
                try:
                    out.append((x[0], x[1], float(x[2])))
                except ValueError:
                    pass
    return out


def project(cases, old, garbage=()):
    """expectation files and an old report: cases = [[name, behaviour]], old = [[name, verdict, ms]]"""
    log = []
    for n, b in cases:
        if b != "noexp":
            write(f"books/{n}.md", EXP)
    if old is not None:
        lines = [f"{n}\t{v}\t{d}" for n, v, d in old]
        for at, g in garbage:
            lines.insert(min(at, len(lines)), g)
        write("books/.out/cases.txt", "".join(l + "\n" for l in lines))
    tests = Tests([(n, body(b, log, n)) for n, b in cases])
    return tests, log


def run(tests, selected, config, parallel=False, ans=(), setup=None, cache=None, delays=(), crash=()):
    setup = setup or BookTestSetup()
    with quiet(), answers(ans) as left:
        if parallel:
            FakePool.delays, FakePool.started, FakePool.crash = list(delays), [], set(crash)
            old = runs.multiprocessing
            runs.multiprocessing = FakeMP
            runs.PROCESS_LOCAL_CACHE = LruCache(8)
            try:
                rv = runs.parallel_run_tests("books", "books/.out", tests, selected, config, setup)
            finally:
                runs.multiprocessing = old
        else:
            rv = runs.run_tests("books", "books/.out", tests, selected, config, LruCache(8) if cache is None else cache, setup)
    return rv, list(left)


def decide(verdict, config, ans):
    """(final verdict, aborted, answers left) of the review step"""
    inter = config.get("always_interactive", False) or (verdict != "OK" and config.get("interactive", False))
    ans = list(ans)
    if inter:
        while True:
            a = ans.pop(0) if ans else "q"
            if a == "a" and verdict != "FAIL":
                return "OK", False, ans
            if a == "c":
                break
            if a == "q":
                if (verdict == "OK" and config.get("update")) or (verdict == "DIFF" and config.get("accept")):
                    return "OK", True, ans
                return verdict, True, ans
    if verdict == "DIFF" and config.get("accept"):
        return "OK", False, ans
    return verdict, False, ans


NAMES = ["test/a", "test/b", "test/ab", "test/suite/a", "test/suite/one", "test/suite/two", "book/z", "test/c", "test/d"]


def gen_project(r, parallel=None):
    names = NAMES[:]
    r.shuffle(names)
    names = names[:r.randrange(1, 6)]
    bs = BEHS if r.random() < .7 else ["ok", "ok", "ok", "ok", "diff"]
    cases = [[n, pick(r, bs)] for n in names]
    old = None
    if r.random() < .8:
        old = [[pick(r, names + ["test/gone", "test/other"]), pick(r, ["OK", "DIFF", "FAIL"]), pick(r, [0, 0.5, 12.25, 1e-05, 123456.789])]
               for _ in range(r.randrange(0, 7))]
    garb = [[r.randrange(0, 6), pick(r, ["", "garbage", "test/a\tOK", "test/a\tok\t1", "test/a\tOK\tx", "\t\t", "   ", "test/a\tNONE\t3.0"])]
            for _ in range(r.randrange(0, 3))] if r.random() < .4 else []
    sel = [n for n in names if r.random() < .8]
    config = {}
    for k, p in (("continue", .5), ("fail_fast", .3), ("accept", .2), ("update", .2), ("interactive", .3), ("always_interactive", .1), ("verbose", .1)):
        if r.random() < p:
            config[k] = True
    ans = [pick(r, "aaccccvq") for _ in range(r.randrange(0, 9))]
    par = r.random() < .4 if parallel is None else parallel
    d = dict(cases=cases, old=old, garbage=garb, selected=sel, config=config, answers=ans, parallel=par)
    if par:
        config["parallel"] = pick(r, [True, 1, 2, "3"])
        d["delays"] = [r.randrange(0, 4) for _ in range(len(sel))]
        d["crash"] = [n for n in sel if r.random() < .1]
    return d


def plan_of(i, old):
    first = {}
    for n, v, d in old:
        first.setdefault(n, v)
    if i["config"].get("continue"):
        return [n for n in i["selected"] if first.get(n) != "OK"]
    return list(i["selected"])


def run_project(i):
    """returns observation: exit status, report, executed names, plan, expected verdicts"""
    tests, log = project(i["cases"], i["old"], i["garbage"])
    old = parse_report("books/.out/cases.txt")
    rv, left = run(tests, i["selected"], dict(i["config"]), i["parallel"], i["answers"], delays=i.get("delays", ()), crash=i.get("crash", ()))
    return dict(rv=rv, log=log, old=old, new=parse_report("books/.out/cases.txt"), todo=plan_of(i, old), left=left)


def expect_sequential(i, todo):
    beh = dict(i["cases"])
    ans = i["answers"]
    out = []
    for n in todo:
        v, ab, ans = decide(VERDICT[beh[n]], i["config"], ans)
        out.append((n, v))
        if ab or (i["config"].get("fail_fast") and any(x != "OK" for _, x in out)):
            break
    return out
