from wlib import *
from booktest.tests import Tests

w = W("C09", "random names and selections over a small alphabet of path components; oracle: the statement; all evaluated")


def covers(name, p):
    return name == p or p == "" or name.startswith(p + "/")


def oracle(name, sel):
    if any(s.startswith("skip:") and covers(name, s[5:]) for s in sel):
        return False
    if all(s.startswith("skip:") for s in sel):
        return True
    return any(s == "*" or covers(name, s) for s in sel)


POOL = [s for s in MODEL.get("strings", []) if not s.startswith("skip:")]


def gen_path(r):
    if POOL and r.random() < .3:
        return pick(r, POOL)
    n = r.randrange(0, 4)
    return "/".join(pick(r, ["a", "b", "ab", "abc", "a b", "a-b", "aé", ""]) for _ in range(n)) + pick(r, ["", "", "", "/", "x", "*"])


def gen(r):
    name = gen_path(r) or "a"
    sel = []
    for _ in range(r.randrange(0, 5)):
        p = pick(r, [gen_path(r), "*", name, name[:r.randrange(len(name) + 1)], name + pick(r, ["/", "x", "/y"]), name.split("/")[0]])
        if r.random() < .4:
            p = "skip:" + p
        if r.random() < .05:
            p = pick(r, ["skip", "skip:", "ski", "SKIP:a"])
        sel.append(p)
    if r.random() < .2:
        sel = sel + sel
    return [name, sel]


def run(i):
    name, sel = i
    got = Tests([]).is_selected(name, list(sel))
    check(bool(got) == oracle(name, sel), f"is_selected({name!r}, {sel!r}) = {got}, expected {oracle(name, sel)}")


w.case("selection", gen, run, 200)
w.main()
