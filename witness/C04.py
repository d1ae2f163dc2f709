from wcase import *

w = W("C04", "random cases (output, assertions of known truth, marks, timing limits, every way of ending, sync and async) and random projects of good and bad cases, sequential "
             "and parallel; non-trivial: a failing assertion or exception not followed by output, or a difference in the same case")

ENDS = ["return", "return", "return", "raise", "assert", "exit", "quit", "stop", "none"]


def gen_op(r):
    k = pick(r, ["t", "tln", "i", "iln", "diff", "fail", "h", "anchor", "anchorln", "kv", "tlist", "tset", "assert", "assert", "must_equal", "must_contain", "must_be_a", "it",
                 "apply", "tms", "ims", "tformat", "err", "logw"])
    b = r.random() < .7
    if k in ("t", "tln", "i", "iln"):
        return [k, text(r, True)]
    if k in ("anchor", "anchorln"):
        return [k, text(r)]
    if k == "h":
        return [k, pick(r, [1, 2, 3]), text(r)]
    if k == "kv":
        return [k, pick(r, ["key", "a:"]), text(r)]
    if k in ("tlist", "tset"):
        return [k, pick(r, [[], ["a"], ["b", "a"], ["1", "2", "3"]])]
    if k == "assert":
        return [k, pick(r, [True, 1, "x", [0]]) if b else pick(r, [False, 0, "", None, []]), pick(r, [None, "message", ""])]
    if k == "must_equal":
        x = pick(r, [1, "a", [1], None])
        return [k, x, x if b else "other"]
    if k == "must_contain":
        return [k, ["a", "b"], "a" if b else "c"]
    if k == "must_be_a":
        return [k, "text", "str" if b else "int"]
    if k == "it":
        return [k, "name", "abc"] + (["equal", "abc" if b else "x"] if r.random() < .5 else ["contain", "b" if b else "z"])
    if k == "apply":
        return [k, "it", pick(r, [True, 1]) if b else pick(r, [False, 0, None])]
    if k == "tms":
        return [k, 10 ** 7 if b else -1]
    if k == "tformat":
        return [k, pick(r, ["s", {"a": 1}, [1, "b"]])]
    if k in ("err", "logw"):
        return [k, "noise"]
    return [k]


def gen(r):
    ops = []
    for _ in range(r.randrange(0, 7)):
        o = gen_op(r)
        if r.random() < .6 and bad(o):
            continue
        ops.append(o)
    return dict(ops=ops, exp=pick(r, [None, "", "# t\n\nx\n", "a\nb\n", " * a\n * b\n"]), end=pick(r, ENDS), is_async=r.random() < .3,
                config={k: True for k in ["verbose", "point_error_pos", "accept", "update", "print_logs", "fail_fast"] if r.random() < .25})


def bad(o):
    k = o[0]
    if k == "fail":
        return True
    if k == "assert":
        return not o[1]
    if k == "must_equal":
        return o[1] != o[2]
    if k == "must_contain":
        return o[2] not in o[1]
    if k == "must_be_a":
        return o[2] != "str"
    if k == "it":
        return o[4] != o[2] if o[3] == "equal" else o[4] not in o[2]
    if k == "apply":
        return not o[2]
    if k == "tms":
        return o[1] < 0
    return False


def run_case(i):
    with scratch():
        must = any(bad(o) for o in i["ops"]) or i["end"] in ("raise", "assert", "exit", "quit", "stop")
        o = run_ops(i["ops"], i["exp"], i["config"], i["end"], is_async=i["is_async"] and i["end"] != "stop")
        check((o["verdict"] == "FAIL") == must, f"the case {'fails' if must else 'does not fail'}, but its verdict is {o['verdict']}")


def gen_many(r):
    d = gen_project(r)
    d["config"] = {k: v for k, v in d["config"].items() if k in ("parallel", "fail_fast", "accept", "verbose")}
    if r.random() < .7:
        d["config"].pop("fail_fast", None)
    d["old"], d["garbage"], d["answers"], d["crash"] = None, [], [], []
    return d


def run_many(i):
    with scratch():
        o = run_project(i)
        beh = dict(i["cases"])
        for n, v, _ in o["new"]:
            check((v == "FAIL") == (VERDICT[beh[n]] == "FAIL"), f"{n} ({beh[n]}) is recorded as {v}")
        if not i["config"].get("fail_fast"):
            check(sorted(o["log"]) == sorted(i["selected"]), f"executed {sorted(o['log'])} of {sorted(i['selected'])}")
            check(sorted(n for n, _, _ in o["new"]) == sorted(i["selected"]), f"recorded {o['new']}")
        elif not i["parallel"]:
            want = [n for n, _ in expect_sequential(i, i["selected"])]
            check(o["log"] == want, f"executed {o['log']}, expected {want}")


if __name__ == "__main__":
    w.case("case", gen, run_case, 3)
    w.case("project", gen_many, run_many, 1)
    w.main()
