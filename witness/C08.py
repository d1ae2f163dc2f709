from wbook import *

w = W("C08", "random reports and selections, planned directly and run (sequentially and in parallel) with and without continue; non-trivial: a recorded case is selected")


def gen_plan(r):
    names = NAMES + ["", "test/a\u00e4"]
    recs = [[pick(r, names), pick(r, ["OK", "DIFF", "FAIL"]), r.random() * 100] for _ in range(r.randrange(0, 9))]
    sel = [pick(r, names) for _ in range(r.randrange(0, 6))]
    return [recs, sel, pick(r, [True, False, None, 1, "1"])]


def check_plan(i):
    recs, sel, cont = i
    rs = [(n, TestResult[v], d) for n, v, d in recs]
    cfg = {} if cont is None else {"continue": cont}
    rep = CaseReports(list(rs))
    done, todo = rep.cases_to_done_and_todo(list(sel), cfg)
    first = {}
    for x in rs:
        first.setdefault(x[0], x)
    if cont:
        exp = [n for n in sel if not (n in first and first[n][1] == TestResult.OK)]
    else:
        exp = sel
    check(list(todo) == exp, f"to run: {todo}, expected {exp}")
    check(rep.cases == rs, "planning changed the records")


def check_run(i):
    with scratch():
        o = run_project(i)
        ran = list(o["log"])
        crash = set(i.get("crash", ()))
        if i["parallel"]:
            if not i["config"].get("fail_fast") and not i["config"].get("interactive") and not i["config"].get("always_interactive"):
                check(sorted(ran) == sorted(n for n in o["todo"] if n not in crash), f"executed {ran}, expected {o['todo']}")
            else:
                check(set(ran) <= set(o["todo"]) and len(ran) == len(set(ran)), f"executed {ran}, planned {o['todo']}")
        else:
            exp = [n for n, v in expect_sequential(i, o["todo"])]
            check(ran == exp, f"executed {ran}, expected {exp}")


w.case("plan", gen_plan, check_plan, 20)
w.case("run", gen_project, check_run, 2)
w.main()
