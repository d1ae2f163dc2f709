import functools
import json as _json
from wbook import *
from booktest.dependencies import depends_on, Resource
from booktest.env import snapshot_env, mock_env
import booktest.tests as btests

w = W("C10", "random dependency graphs over functions and methods of several instances of test books (some decorated further, some depending on tests that "
             "are not in the project), random selections and sets of cached results, with and without refreshing; also whole invocations; "
             "non-trivial: an unselected dependency without a cached result")


def gen(r):
    nf = r.randrange(1, 7)
    paths = ["a", "b", "a/s", "ab", "c"]
    nodes = []
    for i in range(nf):
        deps = [pick(r, ["f%d" % j for j in range(i)] + ["res", "ghost"]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        nodes.append([pick(r, paths) + "/f%d" % i, deps, r.randrange(0, 3)])
    insts = r.randrange(0, 4)
    mdeps = [["m%d" % j for j in range(i) if r.random() < .5] + (["f0"] if r.random() < .3 else []) for i in range(3)]
    order = list(range(nf + insts))
    r.shuffle(order)
    tail = [pick(r, ["m0", "m1", "m2", "f0"]) for _ in range(r.randrange(0, 3))] if insts else []
    names = [n[0] for n in nodes] + ["bk%d/m%d" % (i, j) for i in range(insts) for j in range(3)] + ["tail"]
    sel = [pick(r, ["", "skip:"]) + pick(r, names + ["a", "b", "bk0", "bk1", "ab"]) if r.random() < .85 else "*" for _ in range(r.randrange(0, 5))]
    return dict(nodes=nodes, insts=insts, mdeps=mdeps, order=order, tail=tail, names=names, sel=sel,
                cached=[n for n in names if r.random() < .5], use_cache=r.random() < .75)


def build(i):
    fs = {}
    ms = {}

    def ghost(t):
        pass

    def of(d):
        return Resource(1, "r") if d == "res" else ghost if d == "ghost" else fs[d] if d in fs else ms[d]

    def deco(f, deps, extra):
        if deps:
            f = depends_on(*[of(d) for d in deps])(f)
        if extra == 1:
            f = mock_env({"VCX": "1"})(f)
        if extra == 2:
            f = snapshot_env("VCX")(mock_env({"VCY": "1"})(f))
        return f
    groups = []
    for k, (name, deps, extra) in enumerate(i["nodes"]):
        def f(t, *a):
            pass
        f.__name__ = "test_f%d" % k
        fs["f%d" % k] = deco(f, deps, extra)
        groups.append([[name, fs["f%d" % k]]])

    class Bk(bt.TestBook):
        def test_m0(self, t, *a):
            pass
    for j in range(3):
        def m(self, t, *a):
            pass
        m.__name__ = "test_m%d" % j
        ms["m%d" % j] = deco(m, i["mdeps"][j], j if i["mdeps"][j] else 0)
        setattr(Bk, "test_m%d" % j, ms["m%d" % j])
    Bk.member_names = ["test_m0", "test_m1", "test_m2"]
    for k in range(i["insts"]):
        groups.append([list(c) for c in Bk("bk%d" % k).cases])
    cases = []
    for o in i["order"]:
        cases += groups[o]

    def tl(t, *a):
        pass
    cases.append(["tail", deco(tl, i["tail"], 0)])
    return Tests(cases)


def sel_oracle(name, sel):
    cov = lambda p: name == p or p == "" or name.startswith(p + "/")
    if any(s.startswith("skip:") and cov(s[5:]) for s in sel):
        return False
    return all(s.startswith("skip:") for s in sel) or any(s == "*" or cov(s) for s in sel)


def declared(i, order):
    """name -> names of the declared dependencies that are tests of the project"""
    f = {"f%d" % k: n[0] for k, n in enumerate(i["nodes"])}
    first = [n for n in order if n.startswith("bk")]
    first = first[0].split("/")[0] if first else None
    out = {}
    for k, (name, deps, _) in enumerate(i["nodes"]):
        out[name] = [f[d] for d in deps if d in f]
    for k in range(i["insts"]):
        for j in range(3):
            out["bk%d/m%d" % (k, j)] = [f[d] if d in f else "bk%d/%s" % (k, d) for d in i["mdeps"][j]]
    out["tail"] = [f[d] if d in f else first + "/" + d for d in i["tail"] if d in f or first]
    return out


def judge(i, order, got, selected, missing):
    deps = declared(i, order)
    must = {n for n in order if selected(n)}
    todo = list(must)
    need = {n: [d for d in deps[n] if selected(d) or missing(d)] for n in deps}
    while todo:
        for d in need[todo.pop()]:
            if d not in must:
                must.add(d)
                todo.append(d)
    check(len(got) == len(set(got)), f"a case comes twice: {got}")
    check(set(got) == must, f"cases to run {sorted(got)}, expected {sorted(must)}")
    for n in got:
        for d in need[n]:
            check(got.index(d) < got.index(n), f"{d} must come before {n}: {got}")


def run(i):
    with scratch(), quiet():
        tests = build(i)
        order = [c[0] for c in tests.cases]
        for n in i["cached"]:
            write("books/.out/" + n + ".bin", "x")
        got = tests.selected_names(list(i["sel"]), "books/.out" if i["use_cache"] else None)
        judge(i, order, got, lambda n: sel_oracle(n, i["sel"]), lambda n: not i["use_cache"] or n not in i["cached"])


def run_cli(i):
    """a whole invocation: what is handed to the sequential or parallel run"""
    with scratch(), quiet():
        tests = build(i)
        order = [c[0] for c in tests.cases]
        for n in i["cached"]:
            write("books/.out/" + n + ".bin", "x")
        import booktest.config
        booktest.config.DEFAULT_CONFIG = None
        got = []
        par = len(i["sel"]) % 2 == 1
        old = btests.run_tests, btests.parallel_run_tests
        btests.run_tests = lambda exp_dir, out_dir, tests, cases, *a, **k: got.append(("seq", list(cases))) or 0
        btests.parallel_run_tests = lambda exp_dir, out_dir, tests, cases, *a, **k: got.append(("par", list(cases))) or 0
        try:
            prefixes = {"/".join(n.split("/")[:k]) for n in order for k in range(1, len(n.split("/")) + 1)}
            sel = [s for s in i["sel"] if s == "*" or s.replace("skip:", "") in prefixes]
            args = (["-p"] if par else []) + ([] if i["use_cache"] else ["-r"]) + sel
            tests.exec("books", args)
        finally:
            btests.run_tests, btests.parallel_run_tests = old
        eff = sel or ["test", "book"]
        check(len(got) == 1 and got[0][0] == ("par" if par else "seq"), f"runs: {got}")
        judge(i, order, got[0][1], lambda n: sel_oracle(n, eff), lambda n: not i["use_cache"] or n not in i["cached"])


if __name__ == "__main__":
    w.case("graph", gen, run, 10)
    w.case("invocation", gen, run_cli, 2)
    w.main()
