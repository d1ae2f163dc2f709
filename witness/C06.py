from wbook import *

w = W("C06", "random projects (behaviours, old reports, options, review answers) run sequentially and through the parallel runner, and reviews of random reports; "
      "non-trivial: at least one case is executed")


def check_run(i):
    with scratch():
        o = run_project(i)
        kept = [x for x in o["old"] if x[0] not in o["todo"]]
        mine = o["new"][len(kept):]
        if not i["parallel"]:
            exp = expect_sequential(i, o["todo"])
            allok = all(v == "OK" for _, v in exp)
            check((o["rv"] == 0) == allok, f"exit status {o['rv']} but executed cases end as {exp}")
        else:
            check((o["rv"] == 0) == all(x[1] == "OK" for x in mine), f"exit status {o['rv']} but the recorded results are {mine}")
            beh = dict(i["cases"])
            for n, v, d in mine:
                if (n in i["crash"] or VERDICT[beh[n]] == "FAIL"):
                    check(v == "FAIL", f"{n} recorded {v}, expected FAIL")
            if not i["config"].get("fail_fast") and not i["config"].get("interactive") and not i["config"].get("always_interactive"):
                check(sorted(x[0] for x in mine) == sorted(o["todo"]), f"recorded {mine}, planned {o['todo']}")
                bad = [n for n in o["todo"] if n in i["crash"] or VERDICT[beh[n]] != "OK" and not (VERDICT[beh[n]] == "DIFF" and i["config"].get("accept"))]
                check((o["rv"] == 0) == (not bad), f"exit status {o['rv']}, not OK: {bad}")


def gen_review(r):
    d = gen_project(r, False)
    d["old"] = [[n, pick(r, ["OK", "DIFF", "FAIL"]), 1.5] for n, b in d["cases"]] + ([["test/gone", pick(r, ["OK", "FAIL"]), 2.0]] if r.random() < .3 else [])
    d["filter"] = None if r.random() < .5 else d["selected"]
    return d


def check_review(i):
    with scratch():
        project(i["cases"], i["old"])
        write("books/.out/metrics.json", '{"tookMs": 3}')
        for n, v, dd in i["old"]:
            write(f"books/.out/{n}.md", EXP)
            os.makedirs(os.path.dirname(f"books/{n}.md"), exist_ok=True)
        with quiet(), answers(i["answers"]):
            rv = brev.review("books", "books/.out", dict(i["config"]), None, i["filter"])
        new = parse_report("books/.out/cases.txt")
        check((rv == 0) == all(x[1] == "OK" for x in new), f"review exit {rv} but the report is {new}")
        exp = []
        ans, ab = i["answers"], False
        for n, v, dd in i["old"]:
            if not ab and (i["filter"] is None or n in i["filter"]) and not (i["config"].get("continue") and n in [x[0] for x in i["old"] if x[1] == "OK"]):
                v, q, ans = decide(v, i["config"], ans)
                ab = q or (i["config"].get("fail_fast") and v != "OK")
            exp.append(v)
        check([x[1] for x in new] == exp, f"verdicts after review {new}, expected {exp}")


def check_code(i):
    check((reports.test_result_to_exit_code(TestResult[i]) == 0) == (i == "OK"), f"exit code of {i}")


if __name__ == "__main__":
    w.fixed("exit code", ["OK", "DIFF", "FAIL"], check_code)
    w.case("run", gen_project, check_run, 4)
    w.case("review", gen_review, check_review, 2)
    w.main()
