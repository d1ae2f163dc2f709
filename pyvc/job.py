"""one contract in one process: python3-vt -m pyvc.job <property> <contract> <out.json> <time scale>"""
import json
import os
import sys
import time
import traceback


def main():
    prop, cname, out, scale = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    t0 = time.time()
    res = dict(contract=cname, obligations=[], functions=[], assumptions=[], stats={}, error=None)
    try:
        from . import program, engine
        prog = program.Prog(os.environ.get("VC_REPO", "/repo"))
        prog.load_all()
        cs = prog.load_contracts(prop)
        if cname == "--list":
            res["contracts"] = {n: [list(f.vc_functions), {k: v for k, v in f.vc_opts.items() if isinstance(v, (int, float, str, bool))}]
                                for n, f in cs.items()}
            res["module_errors"] = prog.errors
        else:
            f = cs[cname]
            opts = dict(f.vc_opts)
            opts["budget"] = opts.get("budget", 280.0) * scale
            opts["prove_ms"] = int(opts.get("prove_ms", 6000) * scale)
            opts["feas_ms"] = int(opts.get("feas_ms", engine.FEAS_MS) * scale)
            opts["scale"] = scale
            e = engine.Engine(prog, f, cname, opts)
            obls = e.run()
            res["functions"] = list(f.vc_functions)
            res["obligations"] = [dict(label=o.label, status=o.status, detail=o.detail, backend=o.backend, secs=round(o.secs, 3),
                                       where=o.where) for o in obls]
            res["assumptions"] = sorted(e.assumptions)
            res["stats"] = {k: (sorted(v) if isinstance(v, set) else v) for k, v in e.stats.items()}
            res["solver_s"] = e.stats["prove_s"] + e.stats["feas_s"]
    except BaseException as ex:
        res["error"] = f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-3000:]
    res["wall_s"] = time.time() - t0
    with open(out, "w") as fo:
        json.dump(res, fo)


main()
