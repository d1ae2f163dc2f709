from wcase import *

w = W("C03", "random texts (unicode, numbers, blanks, controls, empty lines) written line by line, accepted and run again unchanged, with random unchecked output in between; "
             "expectation files with and without a final newline; every unchecked output call; non-trivial: numbers, signs or blanks at token boundaries, unchecked text that changed")

CH = list("ab1 29.+-_*#|\t") + ["é", "ß", "١", "²", "½", "中", "\x0b", "\x0c", "\u2028", "\x00", "'", "\"", "\\", "Ⅷ", "👍", "\u0301", "-1", "+1.5", "1.", ".5", "--", "1e5", "  "]


def gen_line(r):
    return "".join(pick(r, CH) for _ in range(r.randrange(0, 9)))


def gen(r):
    lines = [gen_line(r) if r.random() < .9 else "NOTE" for _ in range(r.randrange(0, 7))]
    return dict(lines=lines, notes=[pick(r, ["", "x", "other 1 2", "# t"]) for _ in range(len(lines))], at=[r.random() < .3 for _ in lines],
                unended=r.random() < .3, is_async=r.random() < .2, config={k: True for k in ["verbose", "point_error_pos", "update", "print_logs"] if r.random() < .25})


def run(i):
    with scratch():
        def ops(second):
            out = []
            for k, l in enumerate(i["lines"]):
                out.append(["tln", l] if not i["at"][k] else ["iln", i["notes"][k] if second else l])
            return out
        first = ops(False)
        text = "".join(o[1] + "\n" for o in first)
        o = run_ops(first, None, {"accept": True}, is_async=i["is_async"])
        check(o["verdict"] == "OK", f"accepted, the verdict is {o['verdict']}")
        check(o["exp"] == text, f"the expectation is {o['exp']!r}, written was {text!r}")
        for second in (False, True):
            exp = text
            if i["unended"] and i["lines"] and i["lines"][-1] and not any(i["at"]):
                exp = text[:-1]
            for name in ("update",):
                cfg = {k: v for k, v in i["config"].items() if k != "update"}
            o = run_ops(ops(second), exp, cfg, is_async=i["is_async"])
            want = "".join(x[1] + "\n" for x in ops(second))
            check(o["verdict"] == "OK", f"written {ops(second)!r} against {exp!r}: the verdict is {o['verdict']}")
            check(o["output"] == want, f"the output is {o['output']!r}, written was {want!r}")
        o = run_ops(ops(True), text, dict(i["config"], update=True), is_async=i["is_async"])
        check(o["verdict"] == "OK" and o["exp"] == "".join(x[1] + "\n" for x in ops(True)), "updating changes the text")


def gen_unchecked(r):
    ops = []
    for _ in range(r.randrange(1, 6)):
        k = pick(r, ["i", "iln", "iln", "ims", "i", "assert", "err", "logw"])
        ops.append([k] + ([gen_line(r)] if k in ("i", "iln", "err", "logw") else [True, None] if k == "assert" else []))
    return dict(ops=ops, exp=pick(r, ["", "a\n", "x 1\ny\n", "1.5 ms\n2 ms (was 3 ms)\n", "ok\n\nq"]), end=pick(r, [True, False]))


def run_unchecked(i):
    with scratch():
        ops = list(i["ops"]) + ([["iln", ""]] if i["end"] else [])
        o = run_ops(ops, i["exp"])
        check(o["verdict"] == "OK", f"only unchecked output {ops!r}, the verdict is {o['verdict']}")
        # unchecked output that follows a checked line, or takes the place of an expected one
        o = run_ops([["tln", "first"]] + i["ops"], "first\n" + i["exp"])
        check(o["verdict"] == "OK", f"a right line and unchecked output {ops!r}, the verdict is {o['verdict']}")


def carriage_return():
    """known finding: a line with a carriage return is read back as two lines"""
    with scratch():
        run_ops([["tln", "a\rb"]], None, {"accept": True})
        return run_ops([["tln", "a\rb"]], None)["verdict"] != "OK"


def repeat(i):
    """an accepted case of many kinds of output passes when it is run again"""
    with scratch():
        o = run_ops(i["ops"], None, {"accept": True})
        check(o["verdict"] == "OK", f"accepted, the verdict is {o['verdict']}")
        o = run_ops(i["ops"], None)
        check(o["verdict"] == "OK", f"run again unchanged, the verdict of {i['ops']} is {o['verdict']}: expected {o['exp']!r}, written {o['output']!r}")
        check(o["output"] == o["exp"], "the output differs from the expectation")


def gen_repeat(r):
    ops = []
    n = 0
    for _ in range(r.randrange(1, 8)):
        k = pick(r, ["h", "kv", "anchorln", "tlist", "tset", "tln", "t+iln", "assert", "tformat", "i+tln", "iln"])
        n += 1
        if k == "h":
            ops.append(["h", pick(r, [1, 2, 3]), f"part {n}"])
        elif k == "kv":
            ops.append(["kv", f"key{n}", "v 1"])
        elif k == "anchorln":
            ops.append(["anchorln", f"anchor {n}"])
        elif k in ("tlist", "tset"):
            items = ["a", "b", "c", "d"][:r.randrange(0, 5)]
            ops += [[k, items], ["tln", f"end {n}"]]
        elif k == "t+iln":
            ops += [["t", f"value {n} "], ["iln", "x"]]
        elif k == "i+tln":
            ops += [["i", "note: "], ["tln", f"x {n}"]]
        elif k == "assert":
            ops += [["t", f"is {n} right? "], ["assert", True, None]]
        elif k == "tformat":
            ops.append(["tformat", {"a": [1, "x"], "b": None}])
        else:
            ops.append([k, pick(r, ["x", "", "# part 1", "1.5"])])
    return dict(ops=ops)


if __name__ == "__main__":
    w.known("carriage-return", carriage_return)
    w.case("lines", gen, run, 3)
    w.case("unchecked", gen_unchecked, run_unchecked, 1)
    w.case("repeat", gen_repeat, repeat, 1)
    w.main()
