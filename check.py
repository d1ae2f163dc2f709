#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: discharge every contract of the property against /repo's current source,
search for a failing input on the real code, write evidence/<property>.json."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
VT = "python3-vt"
PY = "/opt/venv/bin/python"
NCPU = os.cpu_count() or 4
T0 = time.time()


def drop():
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass


class Witness:
    """runs witness/<prop>.py: the real code under a plain interpreter, unprivileged, in a scratch directory"""

    def __init__(self, prop, seed, secs, tier, model=None):
        self.dir = tempfile.mkdtemp(prefix="vcw-")
        os.chmod(self.dir, 0o777)
        self.out = os.path.join(self.dir, "result.json")
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "PYTHONPATH": REPO + os.pathsep + os.path.join(VERIF, "witness"),
               "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SEED": str(seed), "VERIF_TIER": tier, "VC_OUT": self.out, "VC_SECS": str(secs),
               "VC_MODEL": json.dumps(model or {}), "VC_KNOWN": os.path.join(VERIF, "known_findings.txt"), "LANG": "C.UTF-8", "PYTHONHASHSEED": "0"}
        self.log = open(os.path.join(self.dir, "log"), "w+")
        work = os.path.join(self.dir, "work")
        os.mkdir(work)
        os.chmod(work, 0o777)
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "witness", prop + ".py")], cwd=work, env=env, stdin=subprocess.DEVNULL,
                                  stdout=self.log, stderr=subprocess.STDOUT, preexec_fn=drop, start_new_session=True)
        self.limit = time.time() + secs * 3 + 60

    def wait(self):
        res = None
        try:
            self.p.wait(max(1, self.limit - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()
        if os.path.exists(self.out):
            try:
                res = json.load(open(self.out))
            except Exception as ex:
                res = None
        self.log.seek(0)
        txt = self.log.read()[-3000:]
        if res is None:
            res = dict(ok=None, error=f"witness run ended with code {self.p.returncode} without a result", log=txt)
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        return res


def run_jobs(prop, names, scale, limit):
    """contracts in parallel processes"""
    d = tempfile.mkdtemp(prefix="vcj-")
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", VC_REPO=REPO)
    pend, live, res = list(names), {}, {}
    while pend or live:
        while pend and len(live) < NCPU:
            n = pend.pop(0)
            o = os.path.join(d, n + ".json")
            log = open(o + ".log", "w")
            live[n] = (subprocess.Popen([VT, "-m", "pyvc.job", prop, n, o, str(scale)], cwd=VERIF, env=env, stdout=log, stderr=log,
                                        stdin=subprocess.DEVNULL), o, log)
        time.sleep(0.05)
        for n, (p, o, log) in list(live.items()):
            if p.poll() is None:
                if time.time() - T0 > limit:
                    p.kill()
                continue
            log.close()
            try:
                res[n] = json.load(open(o))
            except Exception:
                if p.returncode < 0 and "VC_NOABS" not in env and time.time() - T0 < limit:
                    # the solver itself crashed: once more without the abstraction of strings
                    env["VC_NOABS"] = "1"
                    pend.append(n)
                    del live[n]
                    continue
                res[n] = dict(contract=n, obligations=[], error=f"verifier process ended with {p.returncode}: " + open(o + ".log").read()[-1500:],
                              functions=[], assumptions=[], stats={}, wall_s=0)
            del live[n]
    shutil.rmtree(d, ignore_errors=True)
    return res


def undischarged(r):
    out = []
    if r.get("error"):
        out.append(dict(contract=r["contract"], label="contract could not be checked", status="error", detail=r["error"], where=""))
    for o in r.get("obligations", []):
        if o["status"] != "ok":
            out.append(dict(o, contract=r["contract"]))
    return out


def model_values(bad):
    """string and integer values of the verifier's candidate counter-models, used to seed the search on the real code"""
    ss, ii = set(), set()
    for b in bad:
        for m in re.finditer(r'= "((?:[^"]|"")*)"', b.get("detail", "")):
            s = m.group(1)
            s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda x: chr(int(x.group(1), 16)), s)
            if len(s) < 200:
                ss.add(s)
        for m in re.finditer(r"= (-?\d+)[,\]]", b.get("detail", "")):
            ii.add(int(m.group(1)))
    return dict(strings=sorted(ss)[:200], ints=sorted(ii)[:200])


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    wsecs = float(os.environ.get("VC_WSECS", 120 if thorough else 20))
    w = Witness(prop, seed, wsecs, tier)
    lst = run_jobs(prop, ["--list"], 1, 100)["--list"]
    results = {}
    if "contracts" in lst:
        cs = lst["contracts"]
        names = [n for n, (f, o) in cs.items() if thorough or not o.get("thorough_only")]
        results = run_jobs(prop, names, 2 if thorough else 1, 420)
    else:
        results["--list"] = dict(lst, contract="contracts of " + prop)
    bad = [b for r in results.values() for b in undischarged(r)]
    retried = []
    if bad and "contracts" in lst:
        # a proof may have failed for lack of time: try those contracts again, alone and with more time
        # (not when the engine found the code outside its subset: time does not help)
        again = sorted({b["contract"] for b in bad if b["contract"] in results})
        wres = w.wait()
        if not (wres.get("ok") is False):
            r2 = run_jobs(prop, again, 3, min(780, time.time() - T0 + 330))
            for n, r in r2.items():
                retried.append(n)
                if len(undischarged(r)) <= len(undischarged(results[n])):
                    results[n] = r
            bad = [b for r in results.values() for b in undischarged(r)]
    else:
        wres = w.wait()
    if wres.get("ok") is None:
        w = Witness(prop, seed, wsecs, tier)
        wres = w.wait()
    if bad and wres.get("ok") is True and time.time() - T0 < 780:
        w = Witness(prop, seed + 1000, 60 if not thorough else 100, "thorough", model_values(bad))
        w2 = w.wait()
        if w2.get("ok") is False:
            w2["evaluations"] = w2.get("evaluations", 0) + wres.get("evaluations", 0)
            wres = w2
    obl = [o for r in results.values() for o in r.get("obligations", [])]
    ok = [o for o in obl if o["status"] == "ok"]
    backends = {}
    for o in ok:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    viol = []
    rp = os.path.join(ev, f"replay_{prop}.json")
    if os.path.exists(rp):
        os.remove(rp)
    for k in wres.get("known", []):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if wres.get("ok") is False:
        json.dump(dict(property=prop, kind="failing input on the real code", failing=wres.get("failing"), how_to_replay=f"VC_REPLAY={rp} "
                       f"PYTHONPATH={REPO}:{VERIF}/witness {PY} {VERIF}/witness/{prop}.py", undischarged=bad[:20], seed=wres.get("seed")),
                  open(rp, "w"), indent=1)
        viol.append(f"VIOLATION property={prop} replay={rp}")
    elif bad:
        json.dump(dict(property=prop, kind="undischarged obligations", undischarged=bad[:50]), open(rp, "w"), indent=1)
        viol.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    elif wres.get("ok") is None:
        # the real code could not be run at all (crash of the search itself)
        json.dump(dict(property=prop, kind="real-code run did not finish", witness=wres), open(rp, "w"), indent=1)
        viol.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    trusted = ["z3 5.3 (python3-vt)", "cvc5 1.4", "CPython 3.12", "pyvc engine (VC generation, /verif/pyvc)"]
    assumptions = sorted({a for r in results.values() for a in r.get("assumptions", [])})
    evidence = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="proof",
                    coverage=dict(obligations=len(obl) + sum(1 for r in results.values() if r.get("error")), discharged=len(ok),
                                  checker_cmd=f"python3 check.py {prop} {tier}", trusted_base=trusted,
                                  contracts=[dict(contract=n, functions=r.get("functions"), obligations=len(r.get("obligations", [])),
                                                  paths=r.get("stats", {}).get("paths"), cut_loops=r.get("stats", {}).get("cuts"),
                                                  wall_s=round(r.get("wall_s", 0), 1), solver_s=round(r.get("solver_s", 0), 1), error=r.get("error"))
                                             for n, r in sorted(results.items())],
                                  functions_under_contract=sorted({f for r in results.values() for f in r.get("functions", [])}),
                                  backends=backends, retried=retried,
                                  real_code_runs=dict(evaluations=wres.get("evaluations", 0), distinct_nontrivial=wres.get("distinct", 0),
                                                      rule=wres.get("rule", ""), samples=wres.get("samples", []), bounded=True,
                                                      note="cross-check and counter-example replay on the real code; not counted as proof",
                                                      error=wres.get("error")),
                                  modules_outside_subset=lst.get("module_errors", {})),
                    assumptions=assumptions + ["extraction drops type annotations, docstrings; generator expressions are evaluated eagerly",
                                               "integers and floats are mathematical integers and reals; strings are sequences of code points"],
                    wall_s=round(time.time() - T0, 1), violations=len(viol))
    json.dump(evidence, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop}: {len(ok)}/{evidence['coverage']['obligations']} obligations discharged over {len(results)} contracts {backends}; "
          f"real-code runs {wres.get('evaluations', 0)}; {evidence['wall_s']} s")
    for b in bad[:10]:
        print(f"  undischarged: {b['contract']}: {b['label']} [{b['status']}] {b.get('where', '')} {b['detail'][:200]!r}")
    if wres.get("ok") is False:
        print("  failing input:", json.dumps(wres.get("failing"))[:1500])
    if wres.get("ok") is None:
        print("  real-code run:", wres.get("error"), wres.get("log", "")[-1500:])
    for v in viol:
        print(v)
    sys.exit(1 if viol else 0)


main()
