from wcase import *

w = W("C24", "random expectation files (repeated and unique lines, common prefixes, empty lines, unterminated last line) and random sequences of headers, anchors, key-value lines and "
             "text between them, against an independent reference of the position; non-trivial: an anchor before the position or nowhere, or a repeated one")

LINES = ["# a", "# b", "## a", "# a b", "", "key 1", "key 2", "key=1", "x", "x y", "y", "1.5 ms", "# a", ""]


def gen(r):
    n = r.randrange(0, 9)
    L = [pick(r, LINES) for _ in range(n)]
    exp = "\n".join(L) + ("\n" if L and (r.random() < .8 or not L[-1]) else "")
    ops = []
    for _ in range(r.randrange(1, 7)):
        k = pick(r, ["h", "h", "anchorln", "anchorln", "anchor", "kv", "tln", "iln", "iln", "here", "i", "t"])
        s = pick(r, LINES + L) if r.random() < .85 else "nowhere"
        if k == "h":
            ops.append(["h", pick(r, [1, 1, 2]), pick(r, ["a", "b", "a b", "zz"])])
        elif k == "anchor":
            ops.append(["anchor", s[:r.randrange(1, 4)] or "x"])
        elif k == "kv":
            ops.append(["kv", pick(r, ["key", "key=", "x", "none"]), pick(r, ["1", "2", "y"])])
        elif k == "here":
            ops.append(["here"])
        else:
            ops.append([k, s])
    return dict(exp=None if r.random() < .05 else exp, ops=ops)


def run(i):
    with scratch():
        ref = Ref(i["exp"])
        ops, at = [], []
        for o in i["ops"]:
            if o[0] == "here":
                # the line that is expected now
                if ref.line or ref.at() is None:
                    continue
                o = ["tln", ref.at()]
            ops.append(o)
            ref.op(o)
            at.append((ref.at(), ref.line))

        def look(t):
            return getattr(t, "exp_line", at[0])
        o = run_ops(ops, i["exp"], after=look)
        for k, (want, line) in enumerate(at):
            if line == "" and i["exp"] is not None and o["seen"][k] is not at[0]:
                check(o["seen"][k] == want, f"after {ops[:k + 1]} the comparison is at line {o['seen'][k]!r}, expected {want!r}")
        check(o["verdict"] == ref.verdict(), f"the verdict of {ops} is {o['verdict']}, expected {ref.verdict()}")
        check(o["output"] == ref.output(), f"the output is {o['output']!r}, expected {ref.output()!r}")
        check(o["exp"] == i["exp"], "the expectation file has changed")


if __name__ == "__main__":
    w.case("anchors", gen, run)
    w.main()
