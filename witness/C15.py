import asyncio
import copy
import json
import os
import shutil
import sys
import tempfile
import types
from wlib import *
import booktest as bt
from booktest.functions import snapshot_functions, mock_functions

w = W("C15", "random functions (of a module, static and class methods, methods of objects, inherited ones, builtins), random recordings, calls in replay, "
             "complete and refresh mode, functions and tests that end in a random way, replacements that fail; the recordings written are replayed again; "
             "non-trivial: at least one call of a snapshotted function")

SOURCE = '''
def plain(*a, **k): return call("plain", a, k)
def other(*a, **k): return call("other", a, k)
class Outer:
    class Base:
        @staticmethod
        def static(*a, **k): return call("Outer.Base.static", a, k)
        @classmethod
        def of_class(cls, *a, **k): return call("Outer.Base.of_class", a, k)
        def method(self, *a, **k): return call("Outer.Base.method", a, k)
    class Derived(Base):
        pass
class Own:
    @staticmethod
    def static(*a, **k): return call("Own.static", a, k)
    def __init__(self): self.x = 1
    def go(self, *a, **k): return call("Own.go", a, k)
'''
NAMES = ["plain", "other", "Outer.Base.static", "Outer.Base.of_class", "Outer.Base.method", "Own.static", "Own.go"]
VALUES = [None, 0, 1, False, True, "", "a", "ä\n", [], [1, None], {"k": []}, 1.5, "None"]


class Boom(Exception):
    pass


class World:
    """the module with the functions; a call records itself and gives the next result"""

    def __init__(self, derived):
        m = self.m = types.ModuleType("bt_c15")
        self.real = []
        self.ends = {}
        m.call = self.call
        sys.modules["bt_c15"] = m
        exec(compile(SOURCE, "bt_c15", "exec"), m.__dict__)
        cls = m.Outer.Derived if derived else m.Outer.Base
        self.base, self.cls = m.Outer.Base, cls
        self.obj, self.own = cls(), m.Own()
        self.places = [m, m.Outer.Base, m.Outer.Derived, m.Own, self.obj, self.own]
        self.before = [dict(vars(p)) for p in self.places]
        self.n = 0

    def call(self, name, a, k):
        self.real.append((name, list(a), dict(k)))
        self.n += 1
        if self.n in self.ends:
            raise Boom(self.n)
        return self.result(self.n)

    def result(self, n):
        return copy.deepcopy(VALUES[n % len(VALUES)])

    def get(self, name):
        """as a user refers to it now"""
        return {"plain": lambda: self.m.plain, "other": lambda: self.m.other, "Outer.Base.static": lambda: self.cls.static,
                "Outer.Base.of_class": lambda: self.cls.of_class, "Outer.Base.method": lambda: self.obj.method,
                "Own.static": lambda: self.own.static, "Own.go": lambda: self.own.go}[name]()

    def restored(self, when):
        for p, b in zip(self.places, self.before):
            a = dict(vars(p))
            for k in set(a) | set(b):
                check(k in a and k in b and a[k] is b[k], f"{when}: attribute {k} of {p!r} was {b.get(k)!r} and is {a.get(k)!r}")

    def close(self):
        sys.modules.pop("bt_c15", None)


class Run:
    def __init__(self, d, config):
        self.exp_dir_name = os.path.join(d, "exp")
        self.out = os.path.join(d, "out")
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.exp_dir_name, exist_ok=True)
        os.makedirs(self.out)
        self.config = config
        self.text = []

    def file(self, name):
        return os.path.join(self.out, name)

    def h1(self, t):
        self.text.append(t)
        return self

    def tln(self, t=""):
        self.text.append(t)
        return self


class Book(bt.TestBook):
    pass


def key(c):
    return json.dumps([c[0], c[1], c[2]], sort_keys=True)


def gen_call(r):
    return [pick(r, NAMES), [pick(r, VALUES) for _ in range(pick(r, [0, 0, 1, 1, 2]))], {k: pick(r, VALUES) for k in "xy" if r.random() < .2}]


ENDS = ["return", "return", "raise", "exit", "interrupt"]


def gen(r):
    pool = [gen_call(r) for _ in range(r.randrange(1, 5))]
    if r.random() < .5:
        c = pick(r, pool)
        pool.append([c[0], c[1] + [pick(r, VALUES)], c[2]])
        pool.append([pick(r, NAMES), c[1], c[2]])
    calls = lambda: [pick(r, pool) for _ in range(r.randrange(0, 7))]
    funcs = r.sample(NAMES, r.randrange(1, len(NAMES) + 1))
    if r.random() < .2:
        funcs.append(pick(r, funcs))
    return dict(funcs=funcs, runs=[dict(calls=calls(), mode=pick(r, ["replay", "replay", "complete", "refresh", "both"]), end=pick(r, ENDS),
                                        fails=[r.randrange(1, 12)] if r.random() < .2 else []) for _ in range(r.randrange(1, 4))],
                first=calls(), derived=r.random() < .5, is_async=r.random() < .4, method=r.random() < .3, outside=r.random() < .3)


def one_run(d, i, world, run, rec):
    """one run of a test; returns the recordings afterwards as {call: result}"""
    t = Run(d, {"replay": {}, "complete": {"complete_snapshots": True}, "refresh": {"refresh_snapshots": True},
                "both": {"complete_snapshots": True, "refresh_snapshots": True}}[run["mode"]])
    known = {} if run["mode"] in ("refresh", "both") else rec
    capture = run["mode"] != "replay"
    seen = {}
    funcs = set(i["funcs"])
    ended = []
    world.n = 0
    world.ends = set(run["fails"])

    def act(*args):
        for c in run["calls"]:
            name, a, k = c
            f = world.get(name)
            before = len(world.real)
            try:
                got = ("result", f(*copy.deepcopy(a), **copy.deepcopy(k)))
            except Boom as ex:
                got = ("boom", ex)
            except ValueError as ex:
                got = ("error", ex)
            done = world.real[before:]
            if name not in funcs:
                check(len(done) == 1, f"{name} is not snapshotted and was executed {len(done)} times")
                continue
            kk = key(c)
            if kk in known:
                check(done == [], f"recorded call {kk} was executed: {done}")
                check(got[0] == "result" and json.dumps(got[1]) == json.dumps(known[kk]) and type(got[1]) is type(known[kk]),
                      f"recorded call {kk} gave {got!r}, recorded {known[kk]!r}")
                seen[kk] = known[kk]
            elif not capture:
                check(done == [], f"unrecorded call {kk} was executed in replay: {done}")
                check(got[0] == "error", f"unrecorded call {kk} in replay gave {got!r}")
            else:
                check(done == [(name, a, k)], f"unrecorded call {kk} in capture executed {done}")
                if world.n in world.ends:
                    check(got[0] == "boom", f"the function raised, the call gave {got!r}")
                else:
                    check(got[0] == "result" and json.dumps(got[1]) == json.dumps(world.result(world.n)), f"call {kk} gave {got!r} for {world.result(world.n)!r}")
                    seen[kk] = got[1]
        ended.append(1)
        if run["end"] == "raise":
            raise Boom()
        if run["end"] == "exit":
            raise SystemExit(3)
        if run["end"] == "interrupt":
            raise KeyboardInterrupt()
        return 77

    async def act_async(*args):
        return act(*args)
    fs = [world.get(n) for n in i["funcs"]]
    f = snapshot_functions(*fs)(act_async if i["is_async"] else act)
    try:
        out = asyncio.run(f(*((Book.__new__(Book), t) if i["method"] else (t,))))
        check(out == 77 and run["end"] == "return", f"the test gave {out!r}")
    except Fail:
        raise
    except (Boom, SystemExit, KeyboardInterrupt) as ex:
        check(ended and run["end"] != "return", f"the test ended by {ex!r}")
    world.restored("after the test ended by " + run["end"])
    stored = {}
    for n in os.listdir(t.file(".functions")) if os.path.exists(t.file(".functions")) else []:
        with open(os.path.join(t.file(".functions"), n)) as h:
            o = json.load(h)
        kk = key([o["call"]["func"], o["call"]["args"], o["call"]["kwargs"]])
        check(kk not in stored, f"{kk} is stored twice")
        stored[kk] = o["result"]
    check(json.dumps(stored, sort_keys=True) == json.dumps(seen, sort_keys=True), f"stored {stored}, expected {seen}")
    # what accepting the results does
    shutil.rmtree(os.path.join(d, "exp"))
    os.rename(os.path.join(d, "out"), os.path.join(d, "exp"))
    return stored


def run(i):
    d = tempfile.mkdtemp(prefix="vc15")
    world = World(i["derived"])
    try:
        rec = one_run(d, i, world, dict(calls=i["first"], mode="refresh", end="return", fails=[]), {})
        for r in i["runs"]:
            rec = one_run(d, i, world, r, rec)
    finally:
        world.close()
        shutil.rmtree(d)


def gen_mock(r):
    return dict(funcs=r.sample(NAMES, r.randrange(1, len(NAMES) + 1)), calls=[gen_call(r) for _ in range(r.randrange(0, 5))], end=pick(r, ENDS),
                derived=r.random() < .5, is_async=r.random() < .4, method=r.random() < .3, nested=r.random() < .3, bad=r.random() < .2, again=r.random() < .3)


def run_mock(i):
    world = World(i["derived"])
    d = tempfile.mkdtemp(prefix="vc15")
    try:
        mocked = []

        def mock(name):
            def m(*a, **k):
                mocked.append((name, list(a), dict(k)))
                return len(mocked)
            return m

        def act(*args):
            for name, a, k in i["calls"]:
                mocked.clear()
                before = len(world.real)
                got = world.get(name)(*a, **k)
                if name in i["funcs"]:
                    check(mocked == [(name, a, k)] and got == 1 and len(world.real) == before, f"mocked {name}{a}{k} reached {mocked} and {world.real[before:]}, gave {got!r}")
                else:
                    check(mocked == [] and len(world.real) == before + 1, f"{name} is not mocked and reached {mocked}")
            if i["end"] == "raise":
                raise Boom()
            if i["end"] == "exit":
                raise SystemExit(3)
            if i["end"] == "interrupt":
                raise KeyboardInterrupt()
            return 77

        async def act_async(*args):
            return act(*args)
        table = {world.get(n): mock(n) for n in i["funcs"]}
        if i["bad"]:
            table["x".join] = mock("bad")      # cannot be replaced
        f = mock_functions(table)(act_async if i["is_async"] else act)
        if i["nested"]:
            f = snapshot_functions(*[world.get(n) for n in i["funcs"]])(f)
        for _ in range(2 if i["again"] else 1):
            t = Run(d, {"complete_snapshots": True})
            try:
                out = asyncio.run(f(*((Book.__new__(Book), t) if i["method"] else (t,))))
                check(not i["bad"] and out == 77 and i["end"] == "return", f"the test gave {out!r}")
            except Fail:
                raise
            except (Boom, SystemExit, KeyboardInterrupt) as ex:
                check(not i["bad"] and i["end"] != "return", f"the test ended by {ex!r}")
            except (AttributeError, TypeError):
                if not i["bad"]:
                    raise
            world.restored("after the mocked test ended by " + i["end"])
    finally:
        world.close()
        shutil.rmtree(d)


def same_name():
    a, b = types.ModuleType("bt_c15a"), types.ModuleType("bt_c15b")
    d = tempfile.mkdtemp(prefix="vc15")
    try:
        for m, v in ((a, 1), (b, 2)):
            sys.modules[m.__name__] = m
            exec(f"def f(): return {v}", m.__dict__)
        t = Run(d, {"complete_snapshots": True})
        snapshot_functions(a.f, b.f)
        asyncio.run(snapshot_functions(a.f)(lambda t: a.f())(t))
        os.rename(t.out, os.path.join(d, "new"))
        shutil.rmtree(t.exp_dir_name)
        os.rename(os.path.join(d, "new"), t.exp_dir_name)
        t = Run(d, {})
        return asyncio.run(snapshot_functions(a.f, b.f)(lambda t: b.f())(t)) == 1
    except ValueError:
        return False
    finally:
        for m in (a, b):
            sys.modules.pop(m.__name__, None)
        shutil.rmtree(d)


def plain_method():
    m = types.ModuleType("bt_c15a")
    d = tempfile.mkdtemp(prefix="vc15")
    try:
        sys.modules[m.__name__] = m
        m.real = []
        exec("class C:\n    def f(self):\n        real.append(1)\n        return 1", m.__dict__)
        t = Run(d, {})
        asyncio.run(snapshot_functions(m.C.f)(lambda t: m.C().f())(t))
        return m.real == [1]
    except ValueError:
        return False
    finally:
        sys.modules.pop(m.__name__, None)
        shutil.rmtree(d)


def builtin(i):
    """functions of compiled modules have the module as their owner"""
    import math
    d = tempfile.mkdtemp(prefix="vc15")
    orig = math.sqrt
    try:
        t = Run(d, {"complete_snapshots": True})
        check(asyncio.run(snapshot_functions(math.sqrt)(lambda t: math.sqrt(4))(t)) == 2.0, "captured")
        check(math.sqrt is orig, "math.sqrt after capture")
        os.rename(t.out, os.path.join(d, "new"))
        shutil.rmtree(t.exp_dir_name)
        os.rename(os.path.join(d, "new"), t.exp_dir_name)
        name = os.listdir(os.path.join(t.exp_dir_name, ".functions"))[0]
        p = os.path.join(t.exp_dir_name, ".functions", name)
        with open(p) as f:
            o = json.load(f)
        o["result"] = i
        with open(p, "w") as f:
            json.dump(o, f)
        t = Run(d, {})
        got = asyncio.run(snapshot_functions(math.sqrt)(lambda t: math.sqrt(4))(t))
        check(got == i, f"replayed {got!r}, recorded {i!r}")
        check(math.sqrt is orig, "math.sqrt after replay")
        try:
            asyncio.run(snapshot_functions(math.sqrt)(lambda t: math.sqrt(9))(Run(d, {})))
            check(False, "unrecorded call in replay")
        except ValueError:
            pass
        check(math.sqrt is orig, "math.sqrt after a missing snapshot")
    finally:
        math.sqrt = orig
        shutil.rmtree(d)


w.known("same-name", same_name)
w.known("plain-method", plain_method)
w.fixed("builtin", [None, 3, "x"], builtin)
w.case("snapshots", gen, run, 20)
w.case("mocks", gen_mock, run_mock, 10)
w.main()
