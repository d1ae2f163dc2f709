"""Runs a property's oracle against the real code: random and directed inputs; the first failing one is reported."""
import json
import os
import random
import sys
import time
import traceback

SEED = int(os.environ.get("VERIF_SEED", "1"))
SECS = float(os.environ.get("VC_SECS", "10"))
TIER = os.environ.get("VERIF_TIER", "quick")
MODEL = json.loads(os.environ.get("VC_MODEL", "{}"))


class Fail(Exception):
    pass


def check(cond, msg):
    if not cond:
        raise Fail(msg)


def known_keys(prop):
    out = {}
    p = os.environ.get("VC_KNOWN") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + prop + " "):
                rest = l.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                out[key.split("=", 1)[1]] = what
    return out


class W:
    """gen(rng) -> input (JSON-able); run(input) raises Fail when the property is broken"""

    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.cases = []     # (name, gen, run, weight)
        self.directed = []
        self.knowns = []
        self.rng = random.Random(SEED)

    def case(self, name, gen, run, weight=1, maxn=10 ** 9):
        self.cases.append([name, gen, run, weight, maxn])

    def fixed(self, name, inputs, run):
        self.directed.append((name, inputs, run))

    def known(self, key, run):
        """run() -> True while the recorded finding still shows"""
        self.knowns.append((key, run))

    def result(self, **k):
        if "VC_OUT" in os.environ:
            with open(os.environ["VC_OUT"], "w") as f:
                json.dump(k, f, default=repr)
        else:
            print(json.dumps(k, default=repr)[:3000])
        sys.stdout.flush()
        os._exit(0)

    def one(self, name, inp, run, n):
        try:
            run(inp)
        except Fail as ex:
            return self.fail(name, inp, str(ex), n)
        except (KeyboardInterrupt,):
            raise
        except BaseException as ex:
            return self.fail(name, inp, f"unexpected {type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:], n)

    def fail(self, name, inp, msg, n):
        self.result(ok=False, failing=dict(case=name, input=inp, what=msg), evaluations=n, distinct=n, rule=self.rule, samples=[], seed=SEED,
                    known=[])

    def main(self):
        if "VC_REPLAY" in os.environ:
            r = json.load(open(os.environ["VC_REPLAY"]))["failing"]
            for name, _, run, *_ in self.cases + [(a, None, c) for a, b, c in self.directed]:
                if name == r["case"]:
                    self.one(name, r["input"], run, 1)
                    print("replayed without failure")
            return
        t0 = time.time()
        n = 0
        seen = set()
        samples = []
        known = []
        keys = known_keys(self.prop)
        for key, run in self.knowns:
            if key in keys:
                if run():
                    known.append(keys[key])
            elif run():
                self.fail("known-key " + key, key, "finding not listed in known_findings.txt", n)
        for name, inputs, run in self.directed:
            for i in inputs:
                n += 1
                seen.add(name + repr(i))
                self.one(name, i, run, n)
        counts = {}
        while self.cases and time.time() - t0 < SECS:
            live = [c for c in self.cases if counts.get(c[0], 0) < c[4]]
            if not live:
                break
            for name, gen, run, weight, maxn in live:
                for _ in range(weight):
                    counts[name] = counts.get(name, 0) + 1
                    inp = gen(self.rng)
                    n += 1
                    k = name + repr(inp)
                    if len(seen) < 200000:
                        seen.add(k)
                    if len(samples) < 6 and n % 7 == 1:
                        samples.append(k[:400])
                    self.one(name, inp, run, n)
                if time.time() - t0 > SECS:
                    break
        self.result(ok=True, evaluations=n, distinct=len(seen), rule=self.rule, samples=samples, known=known, seed=SEED)


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def words(rng, n, alphabet):
    return "".join(pick(rng, alphabet) for _ in range(n))
