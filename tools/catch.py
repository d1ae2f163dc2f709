#!/usr/bin/env python3
"""catch.py [ID...]: runs the check of each planted bug's property against a patched copy of /repo, and reports whether it is caught"""
import json, os, subprocess, sys, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(f"{ROOT}/seeded"))
for i in ids:
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="catch-")
    os.chmod(d, 0o755)
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        a = subprocess.run(["git", "-C", d + "/repo", "apply", f"{ROOT}/seeded/{i}/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            print(i, m["property"], "DOES NOT APPLY", a.stderr[:200])
            continue
        subprocess.run(["cp", "-a", ROOT, d + "/verif"], check=True)
        t = time.time()
        p = subprocess.run(["python3", d + "/verif/check.py", m["property"], "quick"], cwd=d + "/verif", env=dict(os.environ, VC_REPO=d + "/repo", VERIF_SEED="1"), capture_output=True, text=True)
        v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
        un = [l for l in p.stdout.split("\n") if "undischarged" in l]
        print(i, m["property"], "CAUGHT" if p.returncode == 1 and v else f"MISSED rc={p.returncode}", ("no input" if v and "no-failing" in v[0] else "input"), f"{len(un)} undischarged {time.time()-t:.0f}s", flush=True)
        cj = f"{ROOT}/tools/caught.json"
        rec = json.load(open(cj)) if os.path.exists(cj) else {}
        names = sorted({l.split(":")[1].strip() for l in un})
        rec[i] = ("undischarged: " + ", ".join(f"`{n}`" for n in names) if names else "proof passes") + (
            "; failing input found" if v and "no-failing" not in v[0] else "; no failing input") if p.returncode == 1 and v else "MISSED"
        json.dump(rec, open(cj, "w"), indent=1, sort_keys=True)
        if "-v" in sys.argv:
            print(p.stdout[-3000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
