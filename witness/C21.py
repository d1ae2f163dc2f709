from wbook import *
import booktest.config as bc

w = W("C21", "random home and project configuration files, environment variables, caller-supplied defaults and command lines, one to three invocations in one "
             "process; the configuration a test sees and the printed one; non-trivial: two sources set the same setting")

KEYS = ["interactive_x", "verbose", "md_viewer", "diff_tool", "fail_fast", "some_key", "print_logs", "refresh_snapshots", "k", "default_tests", "update", "UPPER"]
VALS = ["1", "0", "x", "a=b", "http://h?x=1&y=2", "==", "", "tool --opt", "01", "True", "  "]
FLAGS = {"-v": ("verbose", True), "-L": ("print_logs", True), "-f": ("fail_fast", True), "-c": ("continue", True), "-r": ("refresh_sources", True),
         "-u": ("update", True), "-a": ("accept", True), "-s": ("complete_snapshots", True), "-S": ("refresh_snapshots", True),
         "-i": ("interactive", True), "-I": ("always_interactive", True)}
VFLAGS = {"-md-viewer": "md_viewer", "-diff-tool": "diff_tool"}
PFLAGS = {"-p": True, "-p1": 1, "-p2": 2, "-p3": 3, "-p4": 4, "-p6": 6, "-p8": 8, "-p16": "16"}


def gen_file(r):
    out = []
    for _ in range(r.randrange(0, 6)):
        q = r.random()
        if q < .15:
            out.append("# comment k=7")
        elif q < .25:
            out.append(pick(r, ["", "   ", "#", "\t"]))
        else:
            out.append(pick(r, KEYS) + "=" + pick(r, VALS))
    return out


def gen_args(r):
    a = [f for f in FLAGS if r.random() < .15]
    for f in VFLAGS:
        if r.random() < .2:
            a += [f, pick(r, ["meld", "a=b", "x y"])]
    if r.random() < .3:
        a.append(pick(r, list(PFLAGS)))
    elif r.random() < .1:
        a += ["--parallel-count", str(r.randrange(1, 9))]
    r.shuffle  # order of options with values must be kept together
    return a


def gen(r):
    return dict(home=gen_file(r) if r.random() < .7 else None, proj=gen_file(r) if r.random() < .7 else None,
                env=[[pick(r, KEYS), pick(r, VALS)] for _ in range(r.randrange(0, 4))], case=pick(r, ["upper", "lower"]),
                runs=[dict(args=gen_args(r), extra={pick(r, KEYS): pick(r, VALS + [True, None]) for _ in range(r.randrange(0, 3))} if r.random() < .5 else None,
                           how=pick(r, ["run", "print"])) for _ in range(r.randrange(1, 4))])


def val(v):
    return True if v == "1" else False if v == "0" else v


def layers(i):
    c = {}
    for f in (i["home"], i["proj"]):
        for l in f or []:
            if l.startswith("#") or not l.strip():
                continue
            k, v = l.strip().split("=", 1)
            c[k] = val(v)
    for k, v in dict((k.lower(), v) for k, v in i["env"]).items():
        c[k] = val(v)
    return c


def flag_values(args):
    c, j = {}, 0
    while j < len(args):
        a = args[j]
        if a in FLAGS:
            c[FLAGS[a][0]] = FLAGS[a][1]
        elif a in VFLAGS:
            j += 1
            c[VFLAGS[a]] = args[j]
        elif a == "--parallel-count":
            j += 1
            c["parallel"] = int(args[j])
        else:
            c["parallel"] = PFLAGS[a]
        j += 1
    return c


def run_cfg(i):
    import argparse
    import booktest.tests as bt_tests
    saved = dict(os.environ)
    got = []

    def capture(exp, out, tests, cases, config, *a):
        got.append(dict(config))
        config["verbose"] = "changed by a run"
        return 0
    o1, o2 = bt_tests.run_tests, bt_tests.parallel_run_tests
    try:
        with scratch() as d:
            os.makedirs("h")
            os.environ["HOME"] = os.path.join(d, "h")
            for k in [k for k in os.environ if k.lower().startswith("booktest_")]:
                del os.environ[k]
            for k, v in i["env"]:
                for kk in (k.upper(), k.lower()):
                    os.environ.pop("BOOKTEST_" + kk, None)
                os.environ["BOOKTEST_" + (k.upper() if i["case"] == "upper" else k.lower())] = v
            if i["home"] is not None:
                write("h/.booktest", "".join(l + "\n" for l in i["home"]))
            if i["proj"] is not None:
                write(".booktest", "\n".join(i["proj"]))
            bc.DEFAULT_CONFIG = None
            bt_tests.run_tests = bt_tests.parallel_run_tests = capture
            tests = Tests([("test/a", lambda t: None)])
            for n, rn in enumerate(i["runs"]):
                parser = argparse.ArgumentParser()
                tests.setup_parser(parser)
                args = list(rn["args"])
                if rn["how"] == "print":
                    args = ["--config"] + args
                parsed = parser.parse_args(args)
                extra = None if rn["extra"] is None else dict(rn["extra"])
                del got[:]
                with quiet() as out, answers([]):
                    if extra is None:
                        tests.exec_parsed("books", parsed)
                    else:
                        tests.exec_parsed("books", parsed, extra_default_config=extra)
                want = layers(i)
                want.update(rn["extra"] or {})
                if want.get("default_tests", "") is None or isinstance(want.get("default_tests", ""), bool):
                    pass
                want.update(flag_values(rn["args"]))
                if rn["how"] == "print":
                    lines = [f"{k}={v}" for k, v in want.items()]
                    o = out.getvalue().split("\n")[:-1]
                    check(sorted(o) == sorted(lines), f"invocation {n}: printed {sorted(o)}, expected {sorted(lines)}")
                else:
                    check(len(got) == 1, f"invocation {n}: {len(got)} runs")
                    for k in set(want) | set(got[0]):
                        check(k in want and k in got[0] and got[0][k] == want[k] and type(got[0][k]) == type(want[k]),
                              f"invocation {n}: setting {k!r} is {got[0].get(k, '<none>')!r}, expected {want.get(k, '<none>')!r}")
                check(extra is None or extra == rn["extra"], "the caller's defaults were changed")
    finally:
        bt_tests.run_tests, bt_tests.parallel_run_tests = o1, o2
        os.environ.clear()
        os.environ.update(saved)
        bc.DEFAULT_CONFIG = None


def gen2(r):
    i = gen(r)
    # a value of default_tests must be a text (it is split)
    for f in ("home", "proj"):
        if i[f] is not None:
            i[f] = [l for l in i[f] if not l.startswith("default_tests=") or l.split("=", 1)[1] not in ("0", "1")]
    i["env"] = [e for e in i["env"] if e[0] != "default_tests" or e[1] not in ("0", "1")]
    for rn in i["runs"]:
        if rn["extra"]:
            rn["extra"].pop("default_tests", None)
    return i


w.case("invocations", gen2, run_cfg, 5)
w.main()
