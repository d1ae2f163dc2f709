import asyncio
import json
import os
import shutil
import tempfile
from wlib import *
import booktest as bt
from booktest.env import snapshot_env, mock_env, mock_missing_env

w = W("C14", "random initial environments, decorators (snapshots with and without a recording, mocks, mocks for missing variables; also stacked and "
             "called twice) and tests that look at the environment, change it and end in a random way; non-trivial: the decorator manages a variable")

VARS = ["BTV_A", "BTV_B", "BTV_C", "BTV_D"]
VALS = ["", "1", "x=y", "väl", "None"]


class Run:
    def __init__(self, d, config):
        self.exp_dir_name = os.path.join(d, "exp")
        self.out = os.path.join(d, "out")
        os.makedirs(self.exp_dir_name)
        os.makedirs(self.out)
        self.config = config
        self.text = []

    def file(self, name):
        return os.path.join(self.out, name)

    def h1(self, t):
        self.text.append(t)
        return self

    def tln(self, t=""):
        self.text.append(t)
        return self


class Book(bt.TestBook):
    pass


class Boom(Exception):
    pass


ENDS = ["return", "raise", "exit", "interrupt"]


def gen_env(r):
    return {v: pick(r, VALS) for v in VARS if r.random() < .5}


def gen_dec(r):
    kind = pick(r, ["snapshot", "mock", "missing"])
    if kind == "snapshot":
        return [kind, [pick(r, VARS) for _ in range(r.randrange(0, 5))]]
    return [kind, {v: pick(r, VALS + [None]) for v in r.sample(VARS, len(VARS)) if r.random() < .6}]


def gen(r):
    return dict(env=gen_env(r), decs=[gen_dec(r) for _ in range(pick(r, [1, 1, 1, 2, 3]))], rec=None if r.random() < .3 else
                {v: pick(r, VALS + [None]) for v in VARS if r.random() < .7}, refresh=r.random() < .25, complete=r.random() < .3, opts=r.random() < .8,
                change={v: pick(r, VALS + [None, "-"]) for v in VARS if r.random() < .5}, end=pick(r, ENDS), is_async=r.random() < .4, method=r.random() < .3,
                again=r.random() < .3)


def now():
    return {v: os.environ[v] for v in VARS if v in os.environ}


def put(e):
    for v in VARS:
        os.environ.pop(v, None)
    os.environ.update(e)


def apply(dec, i, env, capture, rec):
    """the environment inside the decorator, None when a snapshot is missing; and the names it manages"""
    kind, arg = dec
    e = dict(env)
    if kind == "snapshot":
        for v in arg:
            if v in rec:
                val = rec[v]
                if val is None:
                    e.pop(v, None)
                else:
                    e[v] = val
            elif not capture:
                return None, set(arg)
        return e, set(arg)
    for v, val in arg.items():
        if kind == "missing" and v in e:
            continue
        if val is None:
            e.pop(v, None)
        else:
            e[v] = val
    return e, set(arg)


def once(i, f, t, state):
    put(i["env"])
    seen = {}
    state["body"] = seen
    book = Book.__new__(Book)
    args = (book, t) if i["method"] else (t,)
    out = None
    try:
        out = ("result", asyncio.run(f(*args)))
    except (Boom, SystemExit, KeyboardInterrupt) as ex:
        out = ("raise", ex)
    except Exception as ex:
        out = ("error", ex)
    after = now()
    # what should have happened
    cfg = t.config
    refresh, complete = cfg.get("refresh_snapshots", False), cfg.get("complete_snapshots", False)
    rec = {} if refresh or i["rec"] is None else i["rec"]
    capture = refresh or complete
    env, managed = dict(i["env"]), []
    ran = True
    for dec in i["decs"]:       # outermost first
        nxt, m = apply(dec, i, env, capture, rec)
        managed.append((m, env))
        if nxt is None:
            ran = False
            break
        env = nxt
    if ran:
        check("env" in seen, f"the test did not run: {out!r}")
        check(seen["env"] == env, f"environment in the test {seen['env']}, expected {env}")
        left = dict(seen["left"])
        check((out[0] == "result" and out[1] == 77) if i["end"] == "return" else out[0] == "raise", f"the test's end came out as {out!r}")
    else:
        check("env" not in seen, "the test ran without a snapshot")
        check(out[0] == "error", f"missing snapshot: {out!r}")
        left = dict(env)
    for m, before in reversed(managed):
        for v in m:
            if v in before:
                left[v] = before[v]
            else:
                left.pop(v, None)
    check(after == left, f"environment afterwards {after}, expected {left}")
    if ran and len(i["decs"]) == 1 and i["decs"][0][0] == "snapshot":
        with open(t.file(".env.json")) as f:
            got = json.load(f)
        check(got == {v: env.get(v) for v in i["decs"][0][1]}, f"recorded {got} for environment {env}")


def run(i):
    d = tempfile.mkdtemp(prefix="vc14")
    saved = dict(os.environ)
    try:
        t = Run(d, dict(refresh_snapshots=i["refresh"], complete_snapshots=i["complete"]) if i["opts"] else {})
        if i["rec"] is not None:
            with open(os.path.join(t.exp_dir_name, ".env.json"), "w") as f:
                json.dump(i["rec"], f)
        state = {}

        def act(*a):
            state["body"]["env"] = now()
            for v, val in i["change"].items():
                if val is None:
                    os.environ.pop(v, None)
                else:
                    os.environ[v] = val
            state["body"]["left"] = now()
            if i["end"] == "raise":
                raise Boom()
            if i["end"] == "exit":
                raise SystemExit(3)
            if i["end"] == "interrupt":
                raise KeyboardInterrupt()
            return 77

        async def act_async(*a):
            return act(*a)
        f = act_async if i["is_async"] else act
        for kind, arg in reversed(i["decs"]):
            f = snapshot_env(*arg)(f) if kind == "snapshot" else mock_env(arg)(f) if kind == "mock" else mock_missing_env(arg)(f)
        once(i, f, t, state)
        if i["again"]:
            once(i, f, t, state)
    finally:
        os.environ.clear()
        os.environ.update(saved)
        shutil.rmtree(d)


w.case("decorated test", gen, run, 20)
w.main()
