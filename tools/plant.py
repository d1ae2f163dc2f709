#!/usr/bin/env python3
"""plant.py ID: ID/spec.py in seeded-src (dict: property, needs, what_it_breaks, edits=[(file, old, new)], demo=python source)
writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} after confirming: applies, tests pass, demo 0 on base and !=0 with patch, and
only original lines (base commit 9a01272) are changed."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "9a01272"
SH = '#!/bin/bash\n# run with cwd /repo\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    i = ns["ID"]
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    sh("cp", "-a", "/repo", r)
    try:
        sh("git", "-C", r, "checkout", "-q", "--", ".")
        for f, old, new in ns["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT matches", s.count(old), "times in", f, repr(old[:60]))
                return 1
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", r, "diff").stdout
        out = os.path.join(ROOT, "seeded", i)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"])
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        # removed lines must be original ones
        orig = {}
        bad = []
        f = None
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                f = l[6:]
                orig[f] = set(sh("git", "-C", "/repo", "show", f"{BASE}:{f}").stdout.split("\n"))
            elif l.startswith("-") and not l.startswith("---") and l[1:] not in orig[f]:
                bad.append(l)
        if bad:
            print(i, "WARNING lines not in the original:", bad)
        b = sh("bash", os.path.join(out, "demo.sh"), cwd="/repo")
        a = sh("bash", os.path.join(out, "demo.sh"), cwd=r)
        tests = ""
        if "--notest" not in sys.argv:
            js = os.path.join(d, "o.json")
            o = sh("git", "-C", "/repo", "apply", os.path.join(out, "patch.diff"))
            try:
                t1 = sh("bash", "/opt/vp/build.sh")
                t2 = sh("bash", "/opt/vp/test.sh", js)
                res = json.load(open(js))
                base = json.load(open("/opt/vp/BASELINE.json"))
                txt = json.dumps(base)
                passed = res.get("passed", [])
                stable = base["stable"]
                missing = [t for t in stable if t not in passed]
                tests = f"tests: {len(passed)} passed, missing {missing[:5]} of {len(stable)}"
            finally:
                sh("git", "-C", "/repo", "checkout", "--", ".")
                sh("bash", "/opt/vp/build.sh")
        okk = b.returncode == 0 and a.returncode != 0 and "missing []" in tests
        print(i, "OK" if okk else "BAD", "base", b.returncode, "patched", a.returncode, tests)
        if b.returncode:
            print("   base:", (b.stdout + b.stderr)[-800:])
        if a.returncode == 0 or "-v" in sys.argv:
            print("   patched:", (a.stdout + a.stderr)[-800:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for s in [a for a in sys.argv[1:] if not a.startswith("-")]:
    main(s)
