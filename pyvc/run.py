"""python3-vt -m pyvc.run C09 [contract ...] [--debug]"""
import sys
import time
from . import program, engine


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    import os
    prog = program.Prog(os.environ.get("VC_REPO", "/repo"))
    prog.load_all()
    cs = prog.load_contracts(a[0])
    for n, f in cs.items():
        if len(a) > 1 and n not in a[1:]:
            continue
        t = time.time()
        e = engine.Engine(prog, f, n, dict(f.vc_opts, debug="--debug" in sys.argv))
        obls = e.run()
        bad = [o for o in obls if o.status != "ok"]
        print(f"== {n}: {len(obls)} obligations, {len(bad)} undischarged, {time.time()-t:.1f}s paths={e.stats['paths']} rounds={e.stats['rounds']}"
              f" feas={e.stats['feas']}/{e.stats['feas_s']:.1f}s prove={e.stats['prove']}/{e.stats['prove_s']:.1f}s")
        print("   abs hits", e.stats["abs_hit"], "abs s %.1f" % e.stats["abs_s"], "seq", e.stats["seq"])
        if "-v" in sys.argv:
            for h in e.history:
                print("   ", h)
        seen = set()
        for o in bad:
            k = (o.label, o.detail[:80])
            if k in seen:
                continue
            seen.add(k)
            print("  ", o.status, o.label, "@", o.where)
            print("      ", o.detail[:1500 if "-v" in sys.argv else 300].replace("\n", "\n       "))
        if "-o" in sys.argv:
            from collections import Counter
            print(Counter(o.label for o in obls))


main()
if engine.PROF is not None:
    for k, v in sorted(engine.PROF.items(), key=lambda x: -x[1][0])[:30]:
        print(v[0], k, "|", v[1])
