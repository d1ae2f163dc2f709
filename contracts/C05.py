from contracts.case_common import *
from hints.C05 import *


@contract("review.freeze_case")
def accepting(V):
    """accepting replaces the expectation file and attachments of the case by what the run produced, and touches nothing else"""
    q = V.str("any path")
    rest = V.str("any attachment")
    case = V.str("case")
    out, exp = "books/.out/" + case, "books/" + case
    V.assume(V.neg("/" in case))
    V.assume(V.neg(case == ""))
    V.assume(V.neg(case.startswith(".")))
    fs = V.fs
    well_formed(V, fs, [out, exp], [q, exp + "/" + rest, out + "/" + rest])
    V.assume(V.neg(fs.isdir(out + ".md")))
    had = fs.exists(out + ".md")
    had_dir = fs.exists(out)
    text = content(V, out + ".md")
    attached = content(V, out + "/" + rest)
    at_q = content(V, q)
    r = V.run(V.mod("review").freeze_case, "books", "books/.out", case)
    V.ensure("accepting returns normally", r.ok)
    if had:
        V.ensure("the expectation is what the run wrote", same(V, content(V, exp + ".md"), text))
        V.ensure("the attachments are exactly those the run made", V.both(V.iff(fs.exists(exp), had_dir),
                                                                        same(V, content(V, exp + "/" + rest), attached) if had_dir else V.neg(fs.exists(exp + "/" + rest))))
        mine = V.either(q == out + ".md", q == exp + ".md", q == out, q == exp, q.startswith(out + "/"), q.startswith(exp + "/"))
        V.ensure("nothing else is touched", V.either(mine, same(V, content(V, q), at_q)))
    else:
        V.ensure("without a result nothing is touched", same(V, content(V, q), at_q))


@contract("review.case_review")
def reviewing(V):
    """only an accepted result changes the expectation, a FAIL is never accepted; accepted is OK, everything else keeps its verdict"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    st = V.state
    st["frozen"], st["asked"] = 0, 0
    result = V.enum(Res, "result")
    request = V.enum(Req, "answer")
    V.assume(V.implies(result == Res.FAIL, V.neg(request == Req.FREEZE)))

    def interact(exp_dir, out_dir, case_name, test_result, config):
        V.ensure("the user is asked about this case", V.both(exp_dir == "E", out_dir == "O", case_name == "C", test_result == result))
        st["asked"] = st["asked"] + 1
        return test_result, request

    def freeze_case(exp_dir, out_dir, case_name):
        V.ensure("this case is accepted", V.both(exp_dir == "E", out_dir == "O", case_name == "C"))
        st["frozen"] = st["frozen"] + 1
    V.patch_fn("review", "interact", interact)
    V.patch_fn("review", "freeze_case", freeze_case)
    config = {}
    for k in ["interactive", "always_interactive", "accept", "update"]:
        if V.choose(2, k + " given") == 1:
            config[k] = V.bool(k)
    r = V.run(V.mod("review").case_review, "E", "O", "C", result, config)
    V.ensure("reviewing returns normally", r.ok)
    verdict, ask = r.value
    answered = V.both(st["asked"] > 0, request == Req.FREEZE)
    auto = V.either(V.both(result == Res.DIFF, config.get("accept", False)), V.both(result == Res.OK, config.get("update", False)))
    V.ensure("accepted exactly when the user or the configuration says so", V.iff(st["frozen"] > 0, V.either(answered, auto)))
    V.ensure("accepted at most once", st["frozen"] <= 1)
    V.ensure("a FAIL is never accepted", V.implies(result == Res.FAIL, st["frozen"] == 0))
    V.ensure("accepted is OK, everything else keeps its verdict", verdict == (Res.OK if st["frozen"] > 0 else result))
    V.ensure("the user is asked at most once", st["asked"] <= 1)


@contract("review.interact")
def asking(V):
    """a result is accepted only by the answer 'a', and never a FAIL; asking changes nothing"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    M = V.mod("review")
    st = V.state
    last = V.cell("", "last answer", StrT)

    def answer(prompt=""):
        last.v = V.str("answer")
        return last.v
    V.patch(M, "input", answer)
    V.patch(M, "print", lambda *a, **k: None)
    V.patch_fn("review", "run_tool", lambda config, tool, args: 0)
    q = V.str("any path")
    before = content(V, q)
    result = V.enum(Res, "result")
    asking_hints(V, Req, last, result == Res.FAIL)
    r = V.run(M.interact, "E", "O", "C", result, {"verbose": V.choose(2, "verbose") == 1})
    V.ensure("asking returns normally", r.ok)
    V.ensure("the verdict is not changed by an answer", r.value[0] == result)
    V.ensure("accepted exactly by the answer a, and never a FAIL", V.iff(r.value[1] == Req.FREEZE, V.both(last.v == "a", V.neg(result == Res.FAIL))))
    V.ensure("asking changes no file", same(V, content(V, q), before))


@contract("review.report_case", "testcaserun.TestCaseRun.review")
def reporting(V):
    """the results of a run are reviewed as they are, and the review decides"""
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")
    st = V.state
    st["reviewed"] = 0
    result, final, request = V.enum(Res, "result"), V.enum(Res, "final"), V.enum(Req, "request")
    how = V.choose(2, "where")

    def case_review(exp_dir, out_dir, case_name, test_result, config):
        V.ensure("this case is reviewed", V.both(exp_dir == "books", out_dir == "out", case_name == "case", test_result == result))
        st["reviewed"] = st["reviewed"] + 1
        return final, request
    V.patch_fn("review", "case_review", case_review)
    q = V.str("any path")
    before = content(V, q)
    for f in ["report_case_begin", "report_case_result", "maybe_print_logs"]:
        V.patch_fn("review", f, lambda *a: None)
    V.patch_fn("reports", "read_lines", lambda path, filename=None: ["x"])
    if how == 0:
        t = plain_case(V)
        r = V.run(t.review, result)
    else:
        r = V.run(V.mod("review").report_case, lambda *a, **k: None, "books", "out", "case", result, V.real("ms"), {"verbose": V.choose(2, "verbose") == 1})
    V.ensure("reviewing returns normally", r.ok)
    V.ensure("reviewed once", st["reviewed"] == 1)
    V.ensure("the review decides", V.both(r.value[0] == final, r.value[1] == request))
    V.ensure("reporting changes no file", same(V, content(V, q), before))


@contract("testcaserun.TestCaseRun.__init__", "testcaserun.TestCaseRun.tmp_path", "testcaserun.TestCaseRun.file", "testcaserun.TestCaseRun.open",
          "testcaserun.TestCaseRun.reset_exp_reader", "testcaserun.TestCaseRun.close", "testcaserun.TestCaseRun.end", "testcaserun.TestCaseRun.start")
def running(V):
    """running a case writes and deletes only below the output directory"""
    V.io_ok = True
    T = V.cls("testcaserun", "TestCaseRun")
    Res = V.cls("reports", "TestResult")
    Req = V.cls("reports", "UserRequest")

    class Run:
        exp_dir = "books"
        out_dir = "books/.out"
    name = ["case", "suite/case"][V.choose(2, "name")]
    fs = V.fs
    well_formed(V, fs, ["books/.out/" + name, "books/.out/" + name + ".tmp"], [])

    def touched(op, path):
        V.ensure("only files below the output directory are touched", path.startswith("books/.out/" + name))
    fs.hooks.append(touched)
    V.patch(T, "next_exp_line", lambda self: None)
    V.patch(T, "review", lambda self, result: (result, Req.NONE))
    for f in ["maybe_print_logs", "report_case_result", "report_case_begin"]:
        V.patch_fn("testcaserun", f, lambda *a: None)
    r = V.run(T, Run(), name, {}, Sink())
    V.ensure("a case is set up", r.ok)
    t = r.value
    r = V.run(t.start)
    how = V.choose(5, "call")
    r = V.run([lambda: t.file("picture.png"), lambda: t.tmp_file("x"), lambda: t.tmp_dir("x"), lambda: t.diff(), lambda: t.fail()][how])
    V.run(t.end)
