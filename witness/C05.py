from wbook import *
from booktest.review import case_review

w = W("C05", "random projects whose cases produce text and attachments, with old expectations and old attachments, run sequentially (with answers), in parallel and reviewed later, "
             "with every combination of accept, update, interactive; every file below books/ is compared before and after; non-trivial: old attachments that are no longer produced, failing "
             "cases with accept, several cases in one directory with common name prefixes")

NAMES5 = ["test/a", "test/ab", "test/b", "test/suite/a", "top", "test/a.b"]
ATT = ["p.png", "q.txt", "r"]


def gen(r):
    names = NAMES5[:]
    r.shuffle(names)
    cases = []
    for n in names[:r.randrange(1, 5)]:
        att = {a: pick(r, ["1", "2"]) for a in ATT if r.random() < .3}
        old_att = {a: pick(r, ["1", "2"]) for a in ATT if r.random() < .3}
        if r.random() < .3:
            old_att = dict(att)
        cases.append(dict(name=n, beh=pick(r, ["ok", "ok", "diff", "diff", "noexp", "fail", "raise", "openend", "difffail"]), att=att, old=old_att))
    config = {k: True for k in ["accept", "update", "interactive", "always_interactive", "fail_fast", "verbose"] if r.random() < .3}
    return dict(cases=cases, config=config, answers=[pick(r, "aaccvldDxq") for _ in range(r.randrange(0, 9))], parallel=r.random() < .25,
                later=r.random() < .3, later_config={k: True for k in ["accept", "update", "interactive", "continue"] if r.random() < .4}, later_answers=[pick(r, "aacq") for _ in range(6)])


TEXT = "# title\n\nline one\n"


def mk(c):
    def f(t):
        t.h1("title")
        t.tln("line one" if c["beh"] not in ("diff", "difffail") else "line two")
        for a, s in c["att"].items():
            write(t.file(a), s)
        if c["beh"] in ("fail", "difffail"):
            t.fail()
        if c["beh"] == "openend":
            t.t("extra")
        if c["beh"] == "raise":
            raise ValueError("boom")
    return f


def tree():
    out = {}
    for d, ds, fs in os.walk("books"):
        if ".out" in ds:
            ds.remove(".out")
        for x in fs:
            p = os.path.join(d, x)
            if p != "books/index.md":
                out[p] = read(p)
    return out


def of(c, text):
    n = c["name"]
    d = {f"books/{n}.md": text}
    for a, s in c["att"].items():
        d[f"books/{n}/{a}"] = s
    return d


def check_tree(want, what):
    have = tree()
    for p in sorted(set(want) | set(have)):
        check(have.get(p) == want.get(p), f"{what}: {p} is {have.get(p)!r}, expected {want.get(p)!r}")


def produced(c):
    return TEXT + "extra\n" if c["beh"] == "openend" else TEXT.replace("one", "two") if c["beh"] in ("diff", "difffail") else TEXT


VERD = dict(ok="OK", diff="DIFF", noexp="DIFF", fail="FAIL", difffail="FAIL", openend="DIFF")
VERD["raise"] = "FAIL"


def answer(verdict, ans):
    """(user accepts, aborts)"""
    while True:
        a = ans.pop(0) if ans else "q"
        if a == "a" and verdict != "FAIL":
            return True, False
        if a == "c":
            return False, False
        if a == "q":
            return False, True


def step(c, verdict, config, ans, want, done):
    inter = config.get("always_interactive") or (verdict != "OK" and config.get("interactive"))
    acc = ab = False
    if inter:
        acc, ab = answer(verdict, ans)
    if acc or (verdict == "DIFF" and config.get("accept")) or (verdict == "OK" and config.get("update")):
        if c["name"] not in done:
            for p in list(want):
                if p.startswith("books/" + c["name"] + "/") or p == "books/" + c["name"] + ".md":
                    del want[p]
            want.update(of(c, produced(c)))
            done.add(c["name"])
        verdict = "OK"
    return verdict, ab


def run_one(i):
    with scratch():
        want = {}
        for c in i["cases"]:
            if c["beh"] != "noexp":
                want[f"books/{c['name']}.md"] = TEXT
            for a, s in c["old"].items():
                want[f"books/{c['name']}/{a}"] = s
        want["books/other.md"] = "other"
        want["books/test/ax.md"] = "other"
        want["books/test/ax/x"] = "other"
        for p, s in want.items():
            write(p, s)
        names = [c["name"] for c in i["cases"]]
        by = {c["name"]: c for c in i["cases"]}
        tests = Tests([(c["name"], mk(c)) for c in i["cases"]])
        config, ans = dict(i["config"]), list(i["answers"])
        par = i["parallel"]
        if par:
            config.pop("interactive", 0)
            config.pop("always_interactive", 0)
            config.pop("fail_fast", 0)
            config["parallel"] = 1
        run(tests, names, config, par, list(ans))
        done, verdicts = set(), []
        if par:
            for n in names:
                verdicts.append((n, step(by[n], VERD[by[n]["beh"]], config, ans, want, done)[0]))
        else:
            for n in names:
                v, ab = step(by[n], VERD[by[n]["beh"]], config, ans, want, done)
                verdicts.append((n, v))
                if ab or (config.get("fail_fast") and v != "OK"):
                    break
        got = [(n, v) for n, v, _ in parse_report("books/.out/cases.txt")]
        check(sorted(got) == sorted(verdicts), f"recorded {got}, expected {verdicts}")
        check_tree(want, f"after the run ({verdicts})")
        if i["later"]:
            cfg = dict(i["later_config"])
            ans = list(i["later_answers"])
            with quiet(), answers(ans[:]):
                brev.review("books", "books/.out", dict(cfg), None, None)
            out, stop = [], False
            for n, v in got:
                if not stop and not (cfg.get("continue") and v == "OK"):
                    v, stop = step(by[n], v, cfg, ans, want, done)
                out.append((n, v))
            again = [(n, v) for n, v, _ in parse_report("books/.out/cases.txt")]
            check(again == out, f"after the review {again}, expected {out}")
            check_tree(want, f"after the review ({out})")


def nested_names():
    """known finding: accepting test/a deletes the expectation of test/a/x"""
    with scratch():
        write("books/test/a/x.md", "x\n")

        def a(t):
            t.tln("a")
        run(Tests([("test/a", a)]), ["test/a"], {"accept": True})
        return not os.path.exists("books/test/a/x.md")


if __name__ == "__main__":
    w.known("nested-names", nested_names)
    w.case("project", gen, run_one)
    w.main()
