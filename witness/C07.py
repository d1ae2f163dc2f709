from wbook import *
import C06

w = W("C07", "random record lists written and read back, reports with damaged lines, and random projects and reviews; non-trivial: at least one record")


def fl(r):
    return pick(r, [0, 1, 0.0, 0.1, 1e-7, 1e22, 123456.78901234567, r.random() * 10 ** r.randrange(-6, 9), -1.5])


def gen_recs(r):
    recs = [[pick(r, NAMES + ["x y", "ä/ö", "a.b", "#c", " lead", "OK", "test/'q'"]), pick(r, ["OK", "DIFF", "FAIL"]), fl(r)] for _ in range(r.randrange(0, 9))]
    bad = [[r.randrange(0, 9), pick(r, ["", "garbage", "a\tOK", "a\tok\t1", "a\tOK\tx", "\t\t", "  ", "a\tNONE\t3.0", "a b c", "OK", "\tDIFF\t", "a\t\t1.0", "1.0"])] for _ in range(r.randrange(0, 4))]
    return [recs, bad]


def check_trip(i):
    recs, bad = i
    with scratch(), quiet():
        rs = [(n, TestResult[v], d) for n, v, d in recs]
        CaseReports(list(rs)).to_file("r.txt")
        got = CaseReports.of_file("r.txt").cases
        check(got == rs, f"written {rs}, read {got}")
        lines = read("r.txt").split("\n")[:-1]
        check(len(lines) == len(rs), f"{len(lines)} lines for {len(rs)} records")
        for at, g in bad:
            lines.insert(min(at, len(lines)), g)
        write("s.txt", "".join(l + "\n" for l in lines))
        got = CaseReports.of_file("s.txt").cases
        check(got == rs, f"with damaged lines {bad}: read {got}, expected {rs}")
        os.mkdir("d")
        CaseReports(list(rs)).to_dir("d")
        check(CaseReports.of_dir("d").cases == rs, "to_dir/of_dir differ")


def check_run(i):
    with scratch():
        o = run_project(i)
        kept = [x for x in o["old"] if x[0] not in o["todo"]]
        check(o["new"][:len(kept)] == kept, f"earlier records {kept} not kept: {o['new']}")
        mine = o["new"][len(kept):]
        if i["parallel"]:
            names = [x[0] for x in mine]
            check(len(names) == len(set(names)) and set(names) <= set(o["todo"]), f"records {mine}, planned {o['todo']}")
        else:
            exp = expect_sequential(i, o["todo"])
            check([(n, v) for n, v, d in mine] == exp, f"records {mine}, expected {exp}")


def check_review(i):
    with scratch():
        project(i["cases"], i["old"])
        write("books/.out/metrics.json", '{"tookMs": 3}')
        for n, v, dd in i["old"]:
            write(f"books/.out/{n}.md", EXP)
            os.makedirs(os.path.dirname(f"books/{n}.md"), exist_ok=True)
        with quiet(), answers(i["answers"]):
            brev.review("books", "books/.out", dict(i["config"]), None, i["filter"])
        new = parse_report("books/.out/cases.txt")
        check([(a, c) for a, b, c in new] == [(a, c) for a, b, c in i["old"]], f"records after review {new}, before {i['old']}")
        for (a, b, c), (d, e, f) in zip(new, i["old"]):
            check(b == e or (b == "OK" and e != "FAIL"), f"verdict of {a} changed from {e} to {b}")


w.case("round trip", gen_recs, check_trip, 20)
w.case("run", gen_project, check_run, 3)
w.case("review", C06.gen_review, check_review, 2)
w.main()
