from wcase import *

w = W("C23", "random expected lists inside random files (top, middle, end, repeated lists, list missing, file ended) and random orders, additions, removals and changes of the items, followed "
             "by a line that must match, by unchecked output or by nothing; non-trivial: a permuted set, a change of one item, the set as the last thing written")

ITEMS = ["a", "b", "ab", "a b", "1", "1.0", "-2", "", " a", "* a", "key: x", "# t", "b ", "ä"]


def gen(r):
    prefix = pick(r, [None, None, " * ", "- ", "* ", "", " "])
    p = " * " if prefix is None else prefix
    items = ITEMS[:]
    r.shuffle(items)
    items = items[:r.randrange(0, 6)]
    old = items[:]
    for _ in range(pick(r, [0, 0, 1, 1, 2])):
        k = r.randrange(4)
        if k == 0 and old:
            old.pop(r.randrange(len(old)))
        elif k == 1:
            x = pick(r, ITEMS)
            if x not in old:
                old.insert(r.randrange(len(old) + 1), x)
        elif k == 2 and old:
            x = pick(r, ["A", "b1", "1.00", "new"])
            if x not in old:
                old[r.randrange(len(old))] = x
    if r.random() < .6:
        r.shuffle(old)
    before = [pick(r, ["top", "# h", " * a", "- b"]) for _ in range(r.randrange(0, 3))]
    after = [pick(r, ["end", "# h", " + a", "z"]) for _ in range(pick(r, [0, 0, 1, 2]))]
    if prefix in ("", " ") or (before and before[-1].startswith(p)):
        before, after = ([] if p == "" else before and ["top"]), ([] if p == "" else after and ["end"])
    return dict(prefix=prefix, items=items, old=old, before=before, after=after, ended=r.random() < .1, unended=r.random() < .3, tail=pick(r, ["right", "wrong", "note", "none", "open", "set"]))


def run(i):
    p = " * " if i["prefix"] is None else i["prefix"]
    args = [] if i["prefix"] is None else [i["prefix"]]
    old, after = i["old"], i["after"]
    if i["ended"]:
        old, after = [], []
    L = i["before"] + [p + x for x in old] + after
    if p == "" and any(x == "" for x in old):
        return
    exp = "".join(x + "\n" for x in L)
    if i["unended"] and L and L[-1]:
        exp = exp[:-1]
    ops = [["tln", x] for x in i["before"]] + [["tset", i["items"]] + args]
    same = set(i["items"]) == set(old)
    wrong = not same
    if i["tail"] == "right" and after:
        ops += [["tln", x] for x in after]
    elif i["tail"] == "wrong" and after:
        ops += [["tln", after[0] + "!"]]
        wrong = True
    elif i["tail"] == "note":
        ops += [["iln", "note"]]
    elif i["tail"] == "open":
        ops += [["i", "note"]]
    elif i["tail"] == "set" and not after:
        ops += [["tset", []] + args]
    with scratch():
        o = run_ops(ops, exp)
        check((o["verdict"] == "OK") == (not wrong), f"expected {exp!r}, written {ops}: the sets are {'equal' if same else 'different'}, the verdict is {o['verdict']}")
        out = "".join(x + "\n" for x in i["before"]) + "".join(p + x + "\n" for x in i["items"])
        check(o["output"].startswith(out), f"the output is {o['output']!r}")


if __name__ == "__main__":
    w.case("set", gen, run)
    w.main()
