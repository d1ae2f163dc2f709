from wbook import *
import re
from booktest.testsuite import TestSuite, drop_prefix, cases_of, merge_tests, decorate_tests

w = W("C22", "random trees of suites over a small alphabet of names, every composition operation and the index text against an independent oracle; "
             "indexes written by sequential and parallel runs of small projects")
COMP = ["test", "a", "b", "ab", "suite", "x y", "é", "tests", "z.md"]


def gen_name(r):
    return "/".join(pick(r, COMP) for _ in range(r.randrange(1, 5)))


def gen_cases(r):
    return [[gen_name(r), k] for k in range(r.randrange(0, 7))]


def gen_tree(r, depth=3):
    if depth and r.random() < .5:
        return [gen_tree(r, depth - 1) for _ in range(r.randrange(0, 4))]
    return {"cases": gen_cases(r), "tuple": r.random() < .5}


class M:
    def __init__(self, i): self.i = i


def build(t):
    if isinstance(t, list):
        xs = [build(x) for x in t]
        return [a for a, _ in xs], [c for _, cs in xs for c in cs]
    cs = [(n, M(k)) if t["tuple"] else [n, M(k)] for n, k in t["cases"]]
    return Tests(cs), cs


def pairs(tests):
    return [(c[0], c[1]) for c in tests.cases]


def snap(x):
    return [snap(y) for y in x] if isinstance(x, list) else [(c[0], c[1]) for c in x.cases]


def run_merge(t):
    arg, flat = build(t)
    before = snap(arg)
    got = pairs(merge_tests(arg))
    check(got == [(c[0], c[1]) for c in flat], f"merge_tests: {[n for n, _ in got]} instead of {[c[0] for c in flat]}")
    check([(c[0], c[1]) for c in cases_of(arg)] == got, "cases_of is not the concatenation")
    check(snap(arg) == before, "merging changed the merged suites")
    wrapped = []

    def deco(m):
        wrapped.append(m)
        return ("wrapped", m)
    got = pairs(decorate_tests(deco, arg))
    check(got == [(c[0], ("wrapped", c[1])) for c in flat], "decorate_tests does not keep names and order and wrap every test")
    check(wrapped == [c[1] for c in flat], "a test was decorated more than once or not at all")
    check(snap(arg) == before, "decorating changed the suites")


def run_drop(i):
    prefix, cases = i
    cs = [(n, M(k)) for n, k in cases]
    full = prefix if prefix.endswith("/") else prefix + "/"
    got = pairs(drop_prefix(prefix, Tests(cs)))
    want = [(n[len(full):], m) for n, m in cs if n.startswith(full)]
    check(got == want, f"drop_prefix({prefix!r}): {[n for n, _ in got]} instead of {[n for n, _ in want]}")


def run_suite(i):
    name, cases = i
    cs = [(n, M(k)) for n, k in cases]
    got = pairs(TestSuite(name, cs))
    want = [(name + "/" + n, m) for n, m in cs]
    check(got == want, f"TestSuite({name!r}): {[n for n, _ in got]} instead of {[n for n, _ in want]}")


def parse_index(text):
    """links with the components they are nested under"""
    out, stack = [], []
    for l in text.split("\n")[1:]:
        if not l.strip(" "):
            continue
        ind = len(l) - len(l.lstrip(" "))
        check(ind % 4 == 1, f"index line {l!r}")
        lev = ind // 4
        m = re.fullmatch(r" *\* \[(.*)\]\((.*)\.md\)", l)
        stack = stack[:lev]
        if m:
            out.append((tuple(stack), m.group(1), m.group(2)))
        else:
            check(lev == len(stack), f"heading {l!r} skips a level below {stack}")
            stack.append(l[ind + 2:])
    return out


def check_index(text, names):
    check(text.startswith("# Books overview:\n"), "no index heading")
    got = parse_index(text)
    want = [(tuple(n.split("/")[:-1]), n.split("/")[-1], n) for n in names]
    check(got == want, f"index lists {got}, the tests are {want}")


def run_index(names):
    from booktest.review import create_index
    with scratch():
        os.makedirs("books")
        create_index("books", list(names))
        check_index(read("books/index.md"), names)


def run_project_index(i):
    with scratch():
        try:
            run_project(i)
        except KeyboardInterrupt:
            return
        if os.path.exists("books/index.md"):
            check_index(read("books/index.md"), [n for n, _ in i["cases"]])
        else:
            check(False, "the run wrote no index")


def gen_run(r):
    i = gen_project(r)
    i["answers"] = ["c"] * 20
    return i


def gen_index(r):
    ns = [gen_name(r) for _ in range(r.randrange(0, 8))]
    if r.random() < .5:
        ns.sort()
    return ns


def names_all(cases):
    check(list(Tests([(n, M(k)) for n, k in cases]).all_names()) == [n for n, _ in cases], "all_names")


w.fixed("index", [[], ["a"], ["test/a", "test/a"], ["test/a/b/c", "test/a/x", "test/b"], ["a/b", "a", "a/b"], ["ab/c", "a/c"], ["a/a/x", "a/x"], ["a/b/x", "c/b/x"],
                  ["a/b/x", "c/b/x", "a/b/y"], ["a/b/c/x", "a/x", "a/b/c/x"]], run_index)
w.case("merge and decorate", gen_tree, run_merge, 20)
w.case("drop prefix", lambda r: [pick(r, ["test", "test/", "a", "te", "test/a", "", "zz", "suite"]), gen_cases(r)], run_drop, 30)
w.case("suite", lambda r: ["/".join(pick(r, COMP) for _ in range(r.randrange(1, 3))), gen_cases(r)], run_suite, 20)
w.case("index", gen_index, run_index, 10)
w.case("all_names", gen_cases, names_all, 5)
w.case("run", gen_run, run_project_index, 1)
w.main()
