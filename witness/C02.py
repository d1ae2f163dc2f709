from wcase import *

w = W("C02", "random expectation files and random sequences of all output calls (whole lines, pieces, lists, headers, anchors, formats, tables, images, marks, assertions), sync and async, "
             "ended or left open; an independent reference of the comparison says whether there is a difference; non-trivial: a difference followed by other output, or in a line that is never ended")

LINES = ["# a", "a", "b", "a b", "", " * a", "| x |", "1.5 ms", "1.50", "x-1", "a  b", "key 1", "a b c", "\ta", "ok"]


def gen_near(r):
    """text close to an expectation: most lines right, some changed"""
    n = r.randrange(0, 7)
    L = [pick(r, LINES) for _ in range(n)]
    exp = "\n".join(L) + ("\n" if L and (r.random() < .85 or not L[-1]) else "")
    ops = []
    for l in L:
        s = l
        if r.random() < .2:
            s = pick(r, [l + "x", l + " ", " " + l, l[1:], l.replace("a", "b"), l.replace("1", "2"), l + ".", "", l[:-1], l.replace("b", "b1")])
        k = pick(r, ["tln", "tln", "tln", "t2", "iln", "half", "skip", "anchorln", "i_then_t", "assert"])
        if k == "t2":
            at = len(s) // 2
            ops += [["t", s[:at]], ["tln", s[at:]]]
        elif k == "half":
            ops += [["t", s], pick(r, [["i", " note"], ["diff"], ["t", ""]]), ["iln", ""]]
        elif k == "i_then_t":
            at = len(s) // 2
            ops += [["i", s[:at]], ["tln", s[at:]]]
        elif k == "skip":
            if r.random() < .3:
                continue
            ops.append(["tln", s])
        elif k == "assert":
            ops += [["t", s], ["assert", r.random() < .8, None]]
        else:
            ops.append([k, s])
    if r.random() < .3:
        ops.append(pick(r, [["t", "open"], ["diff"], ["i", "open"], ["tln", "more"], ["t", ""], ["iln", "more"], ["h", 1, "a"], ["kv", "key", "1"]]))
    if r.random() < .15:
        ops.insert(r.randrange(len(ops) + 1), ["diff"])
    return dict(exp=None if r.random() < .08 else exp, ops=ops, is_async=r.random() < .2,
                config={k: True for k in ["verbose", "point_error_pos", "update", "fail_fast"] if r.random() < .25})


def run_near(i):
    with scratch():
        ref = Ref(i["exp"])
        for o in i["ops"]:
            ref.op(o)
        o = run_ops(i["ops"], i["exp"], i["config"], is_async=i["is_async"])
        if ref.verdict() != "OK":
            check(o["verdict"] != "OK", f"the case ends as OK, although there are {ref.diffs} differences, {ref.fails} failures" +
                  (", no expectation file" if i["exp"] is None else ""))


class Column(dict):
    pass


class Frame:
    """what tdf needs of a data frame"""

    def __init__(self, cols):
        self.cols = cols
        self.columns = list(cols)
        self.index = range(max(len(v) for v in cols.values()))

    def __getitem__(self, c):
        return self.cols[c]


def forms(i):
    """writes the same content with every checked call; then with one item changed"""
    return [lambda t: t.tlist(i), lambda t: t.tformat(dict.fromkeys(map(str, i), 1)), lambda t: t.tdf(Frame({"col": i, "n": i})), lambda t: t.h1(str(i[0])),
            lambda t: t.h2(str(i[0])), lambda t: t.h3(str(i[0])), lambda t: t.h(4, str(i[0])), lambda t: t.header(str(i[0])), lambda t: t.anchorln(str(i[0])),
            lambda t: t.keyvalueln("key", str(i[0])), lambda t: t.keyvalueln(str(i[0]), "v"), lambda t: t.timage("books/.out/" + str(i[0]) + ".png"), lambda t: t.tset(i),
            lambda t: t.t(str(i[0])).iln(), lambda t: t.tln(str(i[-1])), lambda t: t.t(str(i[-1])), lambda t: t.timage("books/.out/x.png", str(i[0])),
            lambda t: t.it(str(i[0]), 1).must_be_a(int)]


NF = 18


def gen_form(r):
    items = ["apple", "b c", "17", "x_y", "3.25", "z"]
    r.shuffle(items)
    items = items[:r.randrange(1, 5)]
    j = 0 if r.random() < .5 else r.randrange(len(items))
    return dict(form=r.randrange(NF), items=items, at=j, new=pick(r, ["kiwi", "18", "b  c", "3.250", "x_z"]), after=pick(r, [[], [["iln", "note"]], [["tln", "same"]], [["i", "open"]]]),
                before=pick(r, [[], [["tln", "top"]]]))


def run_form(i):
    changed = list(i["items"])
    changed[i["at"]] = i["new"]
    f = i["form"]
    first_only = f in (3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17)
    last_only = f in (14, 15)
    relevant = not (first_only and i["at"] != 0) and not (last_only and i["at"] != len(changed) - 1)
    with scratch():
        def test(items, exp, accept):
            def case(t):
                for o in i["before"]:
                    do(t, o)
                forms(items)[f](t)
                for o in i["after"]:
                    do(t, o)
            tr = TestRun("books", "books/.out", "books/.out", Tests([("case", case)]), ["case"], {"accept": True} if accept else {}, {}, io.StringIO())
            with quiet():
                return asyncio.run(tr.run_case("case", case))[0].name
        v = test(i["items"], None, False)
        check(v == "DIFF", f"without an expectation the verdict is {v}")
        v = test(i["items"], None, True)
        check(v == "OK", f"accepted, the verdict is {v}")
        if relevant:
            v = test(changed, None, False)
            check(v != "OK", f"{i['items']} was accepted, {changed} is OK as well")


if __name__ == "__main__":
    w.case("near", gen_near, run_near, 4)
    w.case("form", gen_form, run_form, 1)
    w.main()
