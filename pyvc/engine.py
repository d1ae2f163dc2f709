import sys
import json
import select
import signal
import os
import time
import types
import enum
import traceback
import z3
from . import core
from .core import *
from .terms import *

FEAS_MS = 120
PROVE_MS = 6000


z3.set_param("warning", False)
PROF = {} if __import__("os").environ.get("VC_PROF") else None


def prof_site(c):
    import sys as _s
    f = _s._getframe(2)
    st = []
    while f is not None and len(st) < 2:
        if "/pyvc/" not in f.f_code.co_filename or "prelude" in f.f_code.co_filename:
            st.append(f"{f.f_code.co_filename.rsplit('/', 1)[-1]}:{f.f_lineno}")
        f = f.f_back
    k = " < ".join(st)
    x = PROF.setdefault(k, [0, str(c).replace(chr(10), " ")[:100]])
    x[0] += 1


def has_ite(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return True
        todo.extend(x.children())
    return False


class HintFail(Exception):
    pass


class Obl:
    __slots__ = ("label", "status", "detail", "backend", "secs", "where")

    def __init__(self, label, status, detail="", backend="", secs=0.0, where=""):
        self.label, self.status, self.detail, self.backend, self.secs, self.where = label, status, detail, backend, secs, where


class LoopInfo:
    def __init__(self, key):
        self.key = key
        self.cut = False
        self.modset = {}       # label -> T
        self.killed = set()
        self.N = None          # list of frozensets (sexpr) currently assumed
        self.Nterms = []       # the corresponding z3 disjuncts over KP
        self.newN = {}
        self.measures = None   # alive measure names
        self.tails = 0
        self.heads = 0
        self.lineno = 0


KP = z3.Int("KP!")


def consts_of(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
    return acc


class Engine:
    def __init__(self, prog, fn, name, opts=None):
        self.prog, self.fn, self.name = prog, fn, name
        o = dict(max_paths=6000, max_rounds=40, budget=280.0, feas_ms=FEAS_MS, prove_ms=PROVE_MS, list_as_tuple=True,
                 thorough=False)
        o.update(opts or {})
        self.opts = o
        self.list_as_tuple = o["list_as_tuple"]
        self.infos = {}
        self.obls = []
        self.axioms = axioms()
        self.solver = None
        self.abs_only = False    # feasibility of branches is decided with strings as uninterpreted values only (more paths)
        self.stats = dict(paths=0, rounds=0, feas=0, feas_s=0.0, prove=0, prove_s=0.0, assumed=set(), ends=0, cuts=set(), abs_s=0.0, abs_hit=0, seq=0,
                          functions=set(), unrolled=0)
        self.assumptions = set()
        self.t0 = time.time()
        from . import lib
        self.lib = lib
        self.unsupported = []

    # ------------------------------------------------------------------ solver
    def _mk(self, seed=0, ms=None, strings="seq"):
        s = z3.SimpleSolver()
        if strings != "seq":
            s.set("string_solver", strings)
        s.set("mbqi", False)
        s.set("auto_config", False)
        if seed:
            s.set("random_seed", seed)
        if ms:
            s.set("timeout", ms)
        return s

    def new_solver(self):
        """two incremental solvers: strings as uninterpreted (fast, refutations are sound), and the full theory"""
        if self.solver is None or self.stats["paths"] % 200 == 199:
            self.solver = self._mk()
            self.abs = self._mk(strings="seq" if os.environ.get("VC_NOABS") else "none")
            for s in (self.solver, self.abs):
                s.add(self.axioms)
                s.push()
        else:
            for s in (self.solver, self.abs):
                s.pop()
                s.push()

    def add(self, t):
        if z3.is_true(t):
            return
        self.solver.add(t)
        self.abs.add(t)
        self.pc.append(t)

    def check(self, *ts, ms=None):
        t0 = time.time()
        try:
            self.abs.set("timeout", min(ms or self.opts["feas_ms"], 300))
            r = self.abs.check(*ts)
            if r != z3.unsat and self.abs_only:
                r = z3.unknown
            elif r != z3.unsat:
                t1 = time.time()
                self.stats["abs_s"] += t1 - t0
                self.solver.set("timeout", ms or self.opts["feas_ms"])
                r = self.solver.check(*ts)
                self.stats["seq"] += 1
            else:
                self.stats["abs_hit"] += 1
        except z3.Z3Exception as ex:
            r = z3.unknown
        self.stats["feas"] += 1
        self.stats["feas_s"] += time.time() - t0
        if time.time() - self.t0 > self.opts["budget"]:
            raise Budget("time budget exceeded")
        return r

    def prove(self, g, quick=False):
        """is g entailed by the path condition?  returns (status, backend, detail)"""
        t0 = time.time()
        if isinstance(g, bool):
            g = z3.BoolVal(g)
        gs = z3.simplify(g)
        if z3.is_true(gs):
            return "ok", "simplifier", ""
        neg = z3.Not(g)
        r = self.check(neg, ms=1500 if not quick else 800)
        self.stats["prove"] += 1
        det = ""
        if r == z3.unsat:
            self.stats["prove_s"] += time.time() - t0
            return "ok", "z3", ""
        if quick == "light":
            return "fail", "z3", "light"
        if r == z3.sat:
            try:
                det = str(self.solver.model())[:4000]
            except Exception:
                pass
            self.stats["prove_s"] += time.time() - t0
            return "fail", "z3", "counter-model:\n" + det
        if not quick:
            r = self.cvc5_check(neg, 3000)
            if r == "unsat":
                self.stats["prove_s"] += time.time() - t0
                return "ok", "cvc5", ""
        seeds = (1, 7) if not quick else (1,)
        for seed in seeds:
            r, why, model = self.fresh_check(seed, neg, self.opts["prove_ms"] if not quick else 2000, 500 if quick else 4000)
            if r == z3.unsat:
                self.stats["prove_s"] += time.time() - t0
                return "ok", "z3(fresh)", ""
            if r == z3.sat:
                break
            if why.startswith("(incomplete"):
                det = "z3: unknown (quantifier instantiation saturated without refutation)\ncandidate counter-model:\n" + model
                break
            det = "z3: " + why
        if not quick:
            r = self.cvc5_check(neg)
            if r == "unsat":
                self.stats["prove_s"] += time.time() - t0
                return "ok", "cvc5", ""
            det += f"\ncvc5: {r}"
        self.stats["prove_s"] += time.time() - t0
        return "fail", "z3+cvc5", det

    def fresh_check(self, seed, neg, ms, ms2):
        """a new solver, in a child process: z3 does not always keep to its own time limits"""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                s = self._mk(seed)
                s.add(self.axioms)
                s.add(self.pc)
                s.add(neg)
                r = s.check()
                why, model = "", ""
                if r == z3.unknown:
                    why = s.reason_unknown()
                os.write(wr, json.dumps([str(r), why]).encode() + b"\n")
                if why.startswith("(incomplete"):
                    # saturated: no proof by instantiating what is relevant; instantiate everything
                    try:
                        model = str(s.model())[:4000]
                    except Exception:
                        pass
                    os.write(wr, json.dumps(["model", model]).encode() + b"\n")
                    w = self._mk(seed)
                    w.set("relevancy", 0)
                    w.add(self.axioms)
                    w.add(self.pc)
                    w.add(neg)
                    os.write(wr, json.dumps([str(w.check()), ""]).encode() + b"\n")
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        out = [["unknown", "timeout"]]
        try:
            buf, end = b"", time.time() + ms / 1000
            while True:
                ready, _, _ = select.select([rd], [], [], max(0, end - time.time()))
                if not ready:
                    break
                d = os.read(rd, 65536)
                if not d:
                    break
                first = b"\n" not in buf
                buf += d
                if first and b"\n" in buf:
                    end = time.time() + ms2 / 1000
            got = [json.loads(x) for x in buf.split(b"\n")[:-1]]
            out = got or out
        finally:
            os.close(rd)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
        kinds = dict(unsat=z3.unsat, sat=z3.sat)
        if len(out) == 3 and out[2][0] == "unsat":
            return z3.unsat, "", ""
        return kinds.get(out[0][0], z3.unknown), out[0][1], out[1][1] if len(out) > 1 else ""

    def cvc5_check(self, neg, ms=6000):
        try:
            return self.lib.cvc5_check(self.axioms + self.pc + [neg], ms)
        except Exception as ex:
            return f"error {type(ex).__name__}: {str(ex)[:200]}"

    # ------------------------------------------------------------------ path decisions
    def live(self):
        if self.dead:
            raise PathEnd()

    def branch(self, c):
        self.live()
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        d = self.decided.get(s.get_id())
        if d is not None:
            return d[0]
        if self.nobranch:
            raise HintFail()
        neg = z3.simplify(z3.Not(s))
        if self.pos < len(self.forced):
            ch, both = self.forced[self.pos]
            self.decisions.append((ch, None, both))
            self.pos += 1
        else:
            t = self.check(s)
            f = self.check(neg) if t != z3.unsat else z3.sat
            if t == z3.unsat:
                if f != z3.sat and self.check(neg) == z3.unsat:
                    raise PathEnd()
                ch, alt = False, None
            elif f == z3.unsat:
                ch, alt = True, None
            else:
                ch, alt = True, False
                if PROF is not None:
                    prof_site(s)
            self.decisions.append((ch, alt, alt is not None))
            self.pos += 1
        both = self.decisions[-1][2]
        lit = s if ch else neg
        self.decided[s.get_id()] = (ch, s)
        self.decided[neg.get_id()] = (not ch, neg)
        if both:
            self.add(lit)
            self.lits.append(lit)
            self.nsym += 1
        else:
            self.add(lit)
        return ch

    def choose(self, n, label=""):
        self.live()
        if n == 1:
            return 0
        if self.nobranch:
            raise HintFail()
        if self.pos < len(self.forced):
            ch, _ = self.forced[self.pos]
            self.decisions.append((ch, None, True))
        else:
            ch = 0
            self.decisions.append((0, list(range(1, n)), True))
        self.pos += 1
        self.nsym += 1
        return ch

    def assume(self, t):
        self.live()
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        if isinstance(t, SymBool):
            t = t.t
        self.add(t)

    def fact(self, t):
        k = t.get_id()
        if k in self.factset:
            return
        self.factset[k] = t
        self.add(t)

    def need(self, t):
        if self.prove(t, quick=True)[0] != "ok":
            raise Unsupported(f"side condition not provable: {t}")

    def at_new(self):
        """are we past the replayed prefix?"""
        return self.pos >= len(self.forced)

    # ------------------------------------------------------------------ obligations
    def where(self):
        f = sys._getframe(2)
        out = []
        while f is not None and len(out) < 6:
            g = f.f_globals
            if "__h__" in g or g.get("__vc__"):
                out.append(f"{g.get('__name__')}:{f.f_code.co_name}:{f.f_lineno}")
            f = f.f_back
        return " < ".join(out)

    def ensure(self, label, cond):
        self.live()
        cond = force(cond)
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, SymAny):
            cond = truthy_term(cond.t)
        if not isinstance(cond, bool) and not z3.is_expr(cond):
            raise Unsupported(f"ensure of {cond!r}")
        if self.final and self.at_new():
            t0 = time.time()
            # an obligation that has failed on other paths is reported anyway
            again = sum(1 for o in self.obls if o.label == label and o.status != "ok") >= 2
            st, be, det = self.prove(cond if not isinstance(cond, bool) else z3.BoolVal(cond), quick="light" if again else False)
            self.obls.append(Obl(label, st, det, be, time.time() - t0, self.where()))
            if st != "ok":
                self.failed = True
                if self.opts.get("debug"):
                    for q in self.pc:
                        print("      pc", str(q).replace(chr(10), ' ')[:600])
                    print("      goal", cond)
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
        else:
            self.add(cond)

    def fail(self, label, detail=""):
        """this point must be unreachable"""
        if self.final and self.at_new():
            t0 = time.time()
            st, be, det = self.prove(z3.BoolVal(False))
            self.obls.append(Obl(label, st, (detail + "\n" + det) if st != "ok" else "", be, time.time() - t0, self.where()))
        raise PathEnd()

    # ------------------------------------------------------------------ fresh values
    def const(self, label, sort):
        n = self.occ.get(label, 0)
        self.occ[label] = n + 1
        nm = label if n == 0 else f"{label}~{n}"
        self.constlog.append(nm)
        return z3.Const(nm, sort)

    def fresh(self, ty, label):
        k = ty.k
        if k == "none":
            return None
        if k == "bool":
            return SymBool(self.const(label, B))
        if k == "int":
            return SymInt(self.const(label, I))
        if k == "real":
            return SymReal(self.const(label, R))
        if k == "str":
            return SymStr(self.const(label, S))
        if k == "bytes":
            return SymBytes(self.const(label, S))
        if k == "enum":
            t = self.const(label, I)
            self.add(z3.Or(*[t == enum_code(m) for m in enum_members(ty.a[0])]))
            return SymEnum(ty.a[0], t)
        if k in ("any", "bot"):
            return SymAny(self.const(label, PyVal))
        if k == "opt":
            return SymOpt(self.const(label + "?none", B), self.fresh(ty.a[0], label))
        if k == "tup":
            return tuple(self.fresh(x, f"{label}.{i}") for i, x in enumerate(ty.a))
        if k == "list":
            return VList(term=self.const(label, SeqS), et=ty.a[0])
        if k == "set":
            return VSet(self.const(label, SetS), ty.a[0])
        if k == "dict":
            return VDict(term=self.const(label, DictS), kt=ty.a[0], vt=ty.a[1])
        if k == "obj":
            return SymObj(ty.a[0], self.const(label, ObjS))
        if k == "inst":
            o = object.__new__(ty.a[0])
            for a, x in ty.a[1]:
                object.__setattr__(o, a, self.fresh(x, f"{label}.{a}"))
            return o
        if k == "native":
            return ty.a[0]
        if k == "poison":
            return Poison("variable after incompatible assignments in a loop (" + label + ")")
        raise Unsupported(f"fresh {ty}")

    def htype(self, v, depth=0):
        """type used for havoc"""
        if isinstance(v, (Sym, bool, int, float, str, bytes, enum.Enum, type(None))) and not isinstance(v, SymOpt):
            return typeof(v)
        if isinstance(v, SymOpt):
            return OptT(self.htype(v.val, depth))
        if isinstance(v, tuple):
            return TupT(*[self.htype(x, depth) for x in v])
        if isinstance(v, (VList, VSet, VDict)):
            if isinstance(v, VList):
                return ListT(v.totype())
            return typeof(v)
        if self.is_repo_class(type(v)):
            if depth > 4:
                return T("poison")
            return T("inst", type(v), tuple((a, self.htype(x, depth + 1)) for a, x in sorted(v.__dict__.items())))
        return T("native", v)

    def hjoin(self, a, b):
        if a == b:
            return a
        if a is None or a.k == "bot":
            return b
        if b is None or b.k == "bot":
            return a
        if a.k == "opt" or b.k == "opt":
            return OptT(self.hjoin(a.a[0] if a.k == "opt" else a, b.a[0] if b.k == "opt" else b))
        if a.k == "none":
            return OptT(b) if b.k not in ("poison", "native") else T("poison")
        if b.k == "none":
            return OptT(a) if a.k not in ("poison", "native") else T("poison")
        if a.k == "inst" and b.k == "inst" and a.a[0] is b.a[0]:
            d = dict(a.a[1])
            for n, x in b.a[1]:
                d[n] = self.hjoin(d.get(n), x)
            return T("inst", a.a[0], tuple(sorted(d.items())))
        if "native" in (a.k, b.k) or "poison" in (a.k, b.k):
            return T("poison")
        return join(a, b)

    # ------------------------------------------------------------------ objects
    def is_repo_class(self, c):
        return isinstance(c, type) and (getattr(c, "_vc_inst", False) or self.prog.is_repo_class(c))

    def obj_const(self, v):
        k = id(v)
        if k in self.objs:
            return self.objs[k][0]
        if isinstance(v, types.MethodType):
            for (o, w, _) in self.objs.values():
                if isinstance(w, types.MethodType) and w.__self__ is v.__self__ and w.__func__ is v.__func__:
                    return o
        n = len(self.objs)
        c = z3.Const(f"obj!{type(v).__name__}!{n}", ObjS)
        self.constlog.append(c.decl().name())
        for (o, w, _) in self.objs.values():
            self.add(c != o)
        self.objs[k] = (c, v, None)
        if self.is_repo_class(type(v)):
            snap = dict(v.__dict__)
            self.objs[k] = (c, v, snap)
            for a, x in snap.items():
                if isinstance(x, Poison):
                    continue
                key = (clsname(type(v)), a)
                ty = join(self.fldtypes.get(key, BOT), typeof(x))
                if ty.k == "poison":
                    ty = AnyT
                if self.fldtypes.get(key) != ty:
                    self.fldtypes[key] = ty
                    self.dirty_mark(f"field type {key}")
                self.add(uf("fld_" + a, ObjS, PyVal)(c) == pack(x))
        return c

    def check_frozen(self):
        for (c, v, snap) in list(self.objs.values()):
            if snap is not None:
                for a, x in v.__dict__.items():
                    if not same(x, snap.get(a, core.BOT)):
                        raise Unsupported(f"object of {type(v).__name__} mutated (attribute {a}) after it was stored in a "
                                          f"logical container")

    def field(self, cls, n, ty, ot):
        t = uf("fld_" + n, ObjS, PyVal)(ot)
        if ty.k not in ("any",):
            self.fact(type_fact(t, ty))
        return unpack(t, ty)

    def fldknown(self, cls):
        return False

    def ident_eq(self, cls):
        sch = self.schema.get(clsname(cls)) or {}
        return sch.get("*ident", False)

    # ------------------------------------------------------------------ heap walk
    def frames(self, top):
        out = []
        f = sys._getframe(2)
        while f is not None and f is not self.base_frame:
            g = f.f_globals
            if "__h__" in g or g.get("__vc__"):
                out.append(f)
            f = f.f_back
        return out

    def callctx(self):
        out = []
        f = sys._getframe(2)
        while f is not None and f is not self.base_frame:
            g = f.f_globals
            if "__h__" in g or g.get("__vc__"):
                out.append((g.get("__name__"), f.f_code.co_name, f.f_lineno))
            f = f.f_back
        return tuple(out)

    def snapshot(self, cur_locals):
        """label -> (owner, key, value) for every mutable location reachable from the stack, modules and ghosts"""
        locs = {}
        seen = {}

        def visit(label, v):
            if v is None or isinstance(v, (bool, int, float, str, bytes, enum.Enum)):
                return
            if isinstance(v, SymOpt):
                visit(label + "!", v.val)
                return
            if isinstance(v, Sym):
                return
            if id(v) in seen:
                return
            seen[id(v)] = v
            if isinstance(v, Tracked):
                locs[label] = (v, None, v.vstate())
                if isinstance(v, VList) and v.conc is not None:
                    for i, x in enumerate(v.conc):
                        visit(f"{label}[{i}]", x)
                elif isinstance(v, VDict) and v.conc is not None:
                    for k, x in v.conc:
                        visit(f"{label}[{k!r}]", x)
                elif isinstance(v, Cell):
                    visit(label + ".v", v.v)
                return
            if isinstance(v, (tuple, list)):
                for i, x in enumerate(v):
                    visit(f"{label}({i})", x)
                return
            if isinstance(v, dict):
                for k, x in list(v.items()):
                    visit(f"{label}<{k!r}>", x)
                return
            if isinstance(v, EagerIter):
                visit(label + ".it", v.lst)
                locs[label + ".pos"] = (v, "pos", v.pos)
                return
            if isinstance(v, Loop):
                visit(label + ".it", v.it)
                return
            if isinstance(v, types.MethodType):
                visit(label + ".self", v.__self__)
                visit(label + ".func", v.__func__)
                return
            if isinstance(v, types.FunctionType):
                if v.__closure__:
                    for nm, c in zip(v.__code__.co_freevars, v.__closure__):
                        try:
                            cv = c.cell_contents
                        except ValueError:
                            continue
                        if nm in self.prog.nonlocals:
                            locs[f"{label}.cell:{nm}"] = (c, "cell_contents", cv)
                        visit(f"{label}.cell:{nm}", cv)
                for nm, x in list(v.__dict__.items()):
                    visit(f"{label}.{nm}", x)
                return
            if isinstance(v, types.GeneratorType):
                if v.gi_frame is not None:
                    locs[label + ".gen"] = (v, None, ("gen", v.gi_frame.f_lasti))
                    for nm, x in v.gi_frame.f_locals.items():
                        visit(f"{label}.{nm}", x)
                return
            if isinstance(v, type):
                if self.prog.is_repo_class(v) and not issubclass(v, enum.Enum):
                    for nm, x in list(v.__dict__.items()):
                        if not nm.startswith("__"):
                            visit(f"{label}.{nm}", x.__func__ if isinstance(x, staticmethod) else x)
                return
            if isinstance(v, types.ModuleType):
                return
            if self.is_repo_class(type(v)):
                for nm in sorted(v.__dict__):
                    x = v.__dict__[nm]
                    locs[f"{label}.{nm}"] = (v, nm, x)
                    visit(f"{label}.{nm}", x)
                return
            vr = getattr(type(v), "_vc_roots", None)
            if vr:
                for i, x in enumerate(vr(v)):
                    visit(f"{label}~{i}", x)

        for i, g in enumerate(self.ghosts):
            visit(f"G:{getattr(g, 'label', i)}", g)
        fr = self.frames(None)
        n = len(fr)
        for i, f in enumerate(fr):
            d = cur_locals if i == 0 else f.f_locals
            lab = f"F{n - i}"
            for nm, x in d.items():
                if not nm.startswith("__lp") or i > 0:
                    visit(f"{lab}.{nm}", x)
                elif isinstance(x, Loop):
                    visit(f"{lab}.{nm}", x)
        for mn, m in self.prog.loaded.items():
            for nm, x in list(m.__dict__.items()):
                if nm.startswith("__") or isinstance(x, (types.ModuleType, type, types.FunctionType)):
                    if isinstance(x, type):
                        visit(f"M:{mn}.{nm}", x)
                    continue
                if getattr(x, "_vc_stubmod", False):
                    continue
                locs[f"M:{mn}.{nm}"] = (m, nm, x)
                visit(f"M:{mn}.{nm}", x)
        return locs

    # ------------------------------------------------------------------ loops
    def loopkey(self, lid, extra=2):
        k = (lid, self.callctx())
        n = self.loopocc.get(k, 0)
        self.loopocc[k] = n + 1
        return k + (n,)

    def dirty_mark(self, why):
        self.dirty = True
        if why.startswith(("mod ", "field ", "cut ")):
            self.struct = True
        self.dirty_why.append(why)

    # ------------------------------------------------------------------ exploration
    def run_path(self, prefix):
        self.new_solver()
        self.pc = []
        self.forced = prefix
        self.pos = 0
        self.decisions = []
        self.decided = {}
        self.factset = {}
        self.lits = []
        self.path_items = []
        self.nsym = 0
        self.dead = False
        self.cause = None
        self.nobranch = False
        self.occ = {}
        self.constlog = []
        self.objs = {}
        self.ghosts = []
        self.loopocc = {}
        self.schema = {}
        self.hints = []
        self.itemviews = {}
        self.named_terms = {}
        self.folds = []
        self.state = {}
        self.require_term = False
        self.base_frame = sys._getframe(0)
        self.prog.reset(self)
        core.ENG = self
        V = self.lib.View(self)
        self.V = V
        try:
            self.fn(V)
            self.check_frozen()
            self.stats["ends"] += 1
            if self.final and not self.reach_ok:
                if self.check(ms=1500) != z3.unsat:
                    self.reach_ok = True
        except PathEnd as ex:
            # a construct that is not supported may have been hidden by cleaning up
            c = self.cause
            if isinstance(c, Unsupported):
                self.unsup(f"{c}  @ " + "".join(traceback.format_tb(c.__traceback__)[-3:]))
            elif isinstance(c, (Restart, Budget)):
                raise c
        except (Exception, SystemExit, KeyboardInterrupt) as ex:
            if self.dead and not isinstance(ex, (SystemExit, KeyboardInterrupt)):
                pass
            self.unsup(f"uncaught {type(ex).__name__}: {ex} " + "".join(traceback.format_tb(ex.__traceback__)[-4:]))
        except Unsupported as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            msg = f"{ex}  @ " + " < ".join(f"{t.name}:{t.lineno}" for t in reversed(tb) if "/repo/" in t.filename or "contracts" in t.filename)[:300]
            self.unsup(msg)
        finally:
            self.dead = True
            self.stats["paths"] += 1

    def prelude(self, n):
        return getattr(self.prog.loaded["pyvc.prelude"], n)

    def unsup(self, msg):
        if self.final:
            self.obls.append(Obl("verifiable", "unsupported", msg, "", 0.0, ""))
        self.unsupported.append(msg)
        self.round_unsup += 1

    def explore(self):
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            self.run_path(prefix)
            n += 1
            if n > self.opts["max_paths"]:
                raise Budget("path budget exceeded")
            ds = self.decisions
            base = [(c, b) for (c, _, b) in ds]
            for i in range(len(ds) - 1, len(prefix) - 1, -1):
                ch, alt, both = ds[i]
                if alt is None:
                    continue
                if isinstance(alt, list):
                    for a in reversed(alt):
                        stack.append(base[:i] + [(a, True)])
                else:
                    stack.append(base[:i] + [(alt, True)])
        return n

    def run(self):
        """returns list of obligations"""
        self.final = False
        self.fldtypes = {}
        self.reach_ok = False
        self.history = []
        try:
            for r in range(self.opts["max_rounds"]):
                self.dirty = False
                self.dirty_why = []
                self.failed = False
                self.round_unsup = 0
                self.unsupported = []
                self.stats["rounds"] += 1
                self.stats["ends"] = 0
                self.reach_ok = False
                for i in self.infos.values():
                    i.newN = {}
                    i.tails = 0
                    i.heads = 0
                self.obls = []
                n = 0
                self.struct = False
                killed0 = {k: set(i.killed) for k, i in self.infos.items()}
                meas0 = {k: i.measures for k, i in self.infos.items()}
                try:
                    n = self.explore()
                except Restart:
                    self.dirty = True
                if self.struct:
                    # candidates refuted while the frame was incomplete get another chance
                    for k, i in self.infos.items():
                        i.killed = killed0.get(k, set())
                        i.measures = meas0.get(k)
                if not self.dirty:
                    for i in self.infos.values():
                        self.update_N(i)
                self.history.append((n, self.final, list(self.dirty_why)[:6]))
                if self.dirty:
                    continue
                if self.final:
                    break
                self.final = True
            else:
                self.obls.append(Obl("converges", "unsupported", "invariant inference did not converge: "
                                     + "; ".join(map(str, self.history[-3:])), "", 0, ""))
                return self.obls
        except Budget as ex:
            self.obls.append(Obl("budget", "unsupported", str(ex), "", 0, ""))
            return self.obls
        for i in self.infos.values():
            if i.cut and i.measures is not None and i.tails and not i.measures:
                self.obls.append(Obl(f"termination of loop {i.key[0]} (line {i.lineno})", "fail",
                                     "no decreasing measure", "", 0, ""))
            elif i.cut and i.measures:
                self.obls.append(Obl(f"termination of loop {i.key[0]} (line {i.lineno})", "ok", "", "z3", 0, ""))
        if not self.reach_ok and not any(o.status != "ok" for o in self.obls):
            self.obls.append(Obl("vacuity guard: a normal end of the contract is reachable", "fail",
                                 "every path ends early or is contradictory", "", 0, ""))
        elif self.reach_ok:
            self.obls.append(Obl("vacuity guard: a normal end of the contract is reachable", "ok", "", "z3", 0, ""))
        if len(self.obls) <= 1:
            self.obls.append(Obl("vacuity guard: obligations generated", "fail", "no obligation was generated", "", 0, ""))
        return self.obls

    def update_N(self, i):
        if not i.cut:
            return
        if i.tails == 0:
            new = None
        else:
            new = set(i.newN)
            if frozenset() in new:
                new = None
        old = set(i.N) if i.N is not None else None
        if new != old:
            i.N = new
            i.Nterms = [list(i.newN[k]) for k in sorted(new, key=lambda f: sorted(f))] if new is not None else []
            self.dirty_mark(f"search invariant of {i.key[0]}")


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, float, str, bytes)):
        return a == b
    if isinstance(a, SymOpt):
        return a.isnone.eq(b.isnone) and same(a.val, b.val)
    if isinstance(a, SymObj):
        return a.cls is b.cls and a.t.eq(b.t)
    if isinstance(a, (SymBool, SymInt, SymReal, SymStr, SymBytes, SymAny)):
        return a.t.eq(b.t)
    if isinstance(a, SymEnum):
        return a.t.eq(b.t)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, types.MethodType):
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    return False


class Ctx:
    """state seen by invariant candidates"""

    def __init__(self, loop, k, locs, cur_locals):
        self.loop, self.k, self.locs, self.locals = loop, k, locs, cur_locals
        self.seq = loop.seq
        self.n = loop.n
        self.mod = loop.info.modset
        self.E = loop.eng

    def val(self, label):
        if label.startswith("L:"):
            return self.locals.get(label[2:], BOT)
        x = self.locs.get(label)
        if x is None:
            return BOT
        o, key, v = x
        if key is None and isinstance(o, Cell):
            return o.v
        return o if key is None else v

    def init(self, label):
        v = self.loop.init.get(label, BOT)
        return v.v if isinstance(v, Cell) else v

    def initval(self, name):
        """integer value a modified local had when the loop was entered"""
        v = self.init("L:" + name)
        return iterm(v) if isinstance(v, (int, SymInt)) and not isinstance(v, bool) else None

    def labels(self):
        return list(self.mod)

    def of(self, *cls):
        """modified locations whose current value is of a given python class: (label, current, init)"""
        for l in sorted(self.mod):
            v = self.val(l)
            if isinstance(v, cls):
                yield l, v, self.init(l)

    def lists(self): return list(self.of(VList))
    def sets(self): return list(self.of(VSet))
    def dicts(self): return list(self.of(VDict))
    def ints(self): return [x for x in self.of(int, SymInt) if not isinstance(x[1], bool)]
    def bools(self): return list(self.of(bool, SymBool))
    def strs(self): return list(self.of(str, SymStr))

    def insts(self, *names):
        """all reachable instances of the repository classes with these names"""
        seen = {}
        for l, (o, key, v) in self.locs.items():
            for x in (o, v):
                y = x.val if isinstance(x, SymOpt) else x
                if type(y).__name__ in names and id(y) not in seen:
                    seen[id(y)] = (l, y)
        for nm, v in self.locals.items():
            y = v.val if isinstance(v, SymOpt) else v
            if type(y).__name__ in names and id(y) not in seen:
                seen[id(y)] = ("L:" + nm, y)
        return [x for x in seen.values()]


class Loop:
    def __init__(self, eng, lid, lineno, it, kind, names):
        self.eng, self.lid, self.lineno, self.kind, self.names = eng, lid, lineno, kind, names
        self.key = None
        self.count = 0
        self.hv = {}
        self.seq = None
        self.base = None
        self.n = None
        self.spec = None
        self.native = None
        self.it = it
        self.phase = "new"
        self.info = None
        if kind == "for":
            self.setup_iter(force(it))

    def setup_iter(self, it):
        e = self.eng
        if isinstance(it, SymAny):
            it = it.resolve()
        if isinstance(it, SymStr):
            t = it.t
            it = SymIter(z3.Length(t), lambda k: mkstr(z3.SubString(t, k, 1)), src=it)
            it.base = None
        if isinstance(it, VList):
            if it.conc is not None:
                self.native = listiter(it)
                self.it = it
                return
            self.srclist = it
            t, et = it.term, it.et
            it2 = SymIter(s_len(t), lambda k: list_item(e, t, et, k), t, et, src=it)
            it = it2
        if isinstance(it, VSet):
            t = t_seq(it.term)
            et = it.et
            src = it
            st = it.term

            def sitem(k):
                e.fact(t_mem(st, s_nth(t, k)))
                return list_item(e, t, et, k)
            it = SymIter(s_len(t), sitem, t, et, src=src)
            e.fact(s_uniq(t))
            e.fact(s_len(t) == t_card(st))
        if isinstance(it, VDict):
            it = it.keys()
        if isinstance(it, DView):
            r = it.iterspec()
            if isinstance(r, list):
                self.native = iter(r)
                return
            it = r
        if isinstance(it, EagerIter):
            l = it.lst
            if l.conc is not None:
                self.native = it
                return
            if it.pos:
                raise Unsupported("partially consumed iterator")
            t, et = l.term, l.et
            it = SymIter(s_len(t), lambda k: list_item(e, t, et, k), t, et, src=l)
        if isinstance(it, SymIter):
            self.spec = it
            self.seq = it.seq
            self.base = it.base
            self.n = it.n
            self.it = it.src
            self.it0 = state_of(it.src)
            return
        if isinstance(it, (tuple, list, range, str, dict, types.GeneratorType, zip, map, filter, enumerate, reversed)):
            self.native = iter(it)
            self.it = it
            return
        if isinstance(it, Poison):
            it._bad()
        if it is None or isinstance(it, (bool, int, float, SymBool, SymNum)):
            raise Typeerr("object is not iterable")
        it = iter_obj(it)
        if isinstance(it, (VList, EagerIter, SymIter, DView)):
            return self.setup_iter(it)
        if isinstance(it, types.GeneratorType) or type(it).__module__ == "builtins":
            self.native = it
            self.it = it
            return
        self.it = it
        self.phase_iter = it

    def hasv(self, n):
        return n in self.hv

    def getv(self, n):
        return self.hv[n]

    # -- loop head
    def head(self, cur):
        e = self.eng
        e.live()
        if time.time() - e.t0 > e.opts["budget"]:
            raise Budget("time budget exceeded")
        if self.phase == "cut":
            self.tail(cur)
        self.hv = {}
        if self.native is not None:
            self.count += 1
            if self.count > 4000:
                raise Unsupported("unrolling too long")
            return False
        if self.phase == "new":
            self.key = self.eng_key()
            self.info = e.infos.get(self.key)
            if self.info is None:
                self.info = e.infos[self.key] = LoopInfo(self.key)
                self.info.lineno = self.lineno
            self.nsym0 = e.nsym
            self.phase = "unroll"
            if self.spec is not None:
                nn = z3.simplify(self.n)
                if z3.is_int_value(nn) and nn.as_long() == 0:
                    return False
                self.info.cut = True
        if not self.info.cut:
            self.count += 1
            if self.count >= 3 and e.nsym > self.nsym0 or self.count > 600:
                self.info.cut = True
                e.dirty_mark(f"cut {self.lid}")
                raise Restart()
            return False
        return self.cut(cur)

    def eng_key(self):
        e = self.eng
        return e.loopkey(self.lid)

    def cur_ctx(self, k, cur, locs):
        return Ctx(self, k, locs, cur)

    def loc_values(self, cur, locs):
        d = {l: (o if key is None else v) for l, (o, key, v) in locs.items()}
        return d

    def freeze(self, v):
        """copy of a container value for later comparison"""
        if isinstance(v, VList):
            return v.copy()
        if isinstance(v, VSet):
            return v.copy()
        if isinstance(v, VDict):
            return v.copy()
        if isinstance(v, ArrCell):
            return ArrCell(v.term, v.label)
        if isinstance(v, Cell):
            return Cell(v.v, v.label, v.ty)
        return v

    def cut(self, cur):
        e, info = self.eng, self.info
        info.heads += 1
        e.stats["cuts"].add(self.lid)
        cur = dict(cur)
        new = e.at_new()
        locs = e.snapshot(cur)
        self.init = {}
        for l, (o, key, v) in locs.items():
            self.init[l] = self.freeze(o if key is None else v)
        for nm in self.names:
            if nm in cur:
                self.init["L:" + nm] = cur[nm]
        cand = self.candidates(cur, locs)
        if new:
            self.check_cands(cand, Ctx(self, z3.IntVal(0), locs, cur), "init")
        # havoc
        self.const_mark = len(e.constlog)
        ktag = f"k!{self.lid}!{abs(hash_key(self.key)) % 99991}"
        k = e.const(ktag, I)
        self.k = k
        tag = f"{self.lid}!{abs(hash_key(self.key)) % 99991}"
        hv = {}
        for l, ty in info.modset.items():
            if l.startswith("L:"):
                nm = l[2:]
                if nm not in cur and ty.k != "maybe":
                    if nm in self.names:
                        hv[nm] = Poison(f"local {nm} possibly unbound at loop head")
                    continue
                hv[nm] = e.fresh(ty, f"{tag}.{nm}")
                continue
            x = locs.get(l)
            if x is None:
                continue
            o, key, v = x
            if key is None:
                self.havoc_tracked(o, ty, f"{tag}.{l}")
            else:
                nv = e.fresh(ty, f"{tag}.{l}")
                setloc(o, key, nv)
        cur.update(hv)
        self.hv = hv
        locs = e.snapshot(cur)
        # assumptions
        e.add(k >= 0)
        if self.n is not None:
            e.add(k <= self.n)
        ctx = Ctx(self, k, locs, cur)
        self.assume_cands(cand, ctx)
        if info.N is not None and self.base is not None:
            j = z3.Int("j!")
            body = z3.Or(*[z3.And(*ts) if ts else z3.BoolVal(True) for ts in self.ok_N()])
            body = z3.substitute(body, (KP, j))
            base = self.base
            if has_ite(base):
                base = e.const("named", base.sort())
                e.fact(base == self.base)
                body = z3.substitute(body, (self.base, base))
            q = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), body), patterns=[s_nth(base, j)])
            e.add(q)
        self.cand = cand
        self.lit_mark = len(e.lits)
        self.snap_cur = {nm: cur.get(nm, BOT) for nm in self.names}
        self.snap = e.snapshot(cur)
        self.outer_count = self.count
        self.phase = "cut"
        self.measure0 = self.measures(ctx) if e.require_term else None
        # the state kept for comparison must not be shared
        self.snapv = {l: (o, key, (v if key is not None else o.vstate() if isinstance(o, Tracked) else v)) for l, (o, key, v) in self.snap.items()}
        return True

    def ok_N(self):
        e = self.eng
        known = set(e.constlog)
        out = []
        for ts in self.info.Nterms:
            out.append([t for t in ts if all(c in known or c == "KP!" or c in BASECONST for c in consts_of(t))])
        return out

    def havoc_tracked(self, o, ty, label):
        e = self.eng
        if isinstance(o, VList):
            o.term, o.conc, o.et = e.const(label, SeqS), None, ty.a[0]
        elif isinstance(o, VSet):
            o.term, o.et = e.const(label, SetS), ty.a[0]
        elif isinstance(o, VDict):
            o.term, o.conc, o.kt, o.vt = e.const(label, DictS), None, ty.a[0], ty.a[1]
        elif isinstance(o, ArrCell):
            o.term = e.const(label, o.term.sort())
        elif isinstance(o, Cell):
            o.v = e.fresh(o.ty if o.ty is not None and ty.k != "poison" else ty, label)
        else:
            raise Unsupported(f"havoc of {o!r}")

    def candidates(self, cur, locs):
        e, info = self.eng, self.info
        out = []
        for nm, f in generic_candidates(self, cur, locs):
            if nm not in info.killed:
                out.append((nm, f))
        for hi, hf in enumerate(e.hints):
            out.append((f"H{hi}", hf))
        return out

    def eval_cand(self, f, ctx):
        """list of (subname, z3 formula)"""
        e = self.eng
        e.nobranch = True
        try:
            r = f(ctx)
            if r is None:
                return []
            if isinstance(r, (SymBool, bool)) or z3.is_expr(r):
                r = [("", r)]
            out = []
            for n, t in list(r):
                if isinstance(t, SymBool):
                    t = t.t
                if isinstance(t, bool):
                    t = z3.BoolVal(t)
                if t is None:
                    continue
                out.append((n, t))
            return out
        except (HintFail, Unsupported, AttributeError, KeyError, IndexError, TypeError) as ex:
            if e.opts.get("debug"):
                print("hint failed:", type(ex).__name__, ex)
            return []
        finally:
            e.nobranch = False

    def check_cands(self, cand, ctx, phase):
        e, info = self.eng, self.info
        if e.struct:
            return
        for nm, f in cand:
            fs = self.eval_cand(f, ctx)
            names = set()
            for sn, t in fs:
                full = nm + ":" + sn
                names.add(full)
                if full in info.killed:
                    continue
                st, _, det = e.prove(t, quick=True)
                if st != "ok":
                    info.killed.add(full)
                    e.dirty_mark(f"{phase} kill {full} in {self.lid}")
                    if e.opts.get("debug"):
                        print(f"   kill[{phase}] {full.replace(chr(10), ' ')} @ {self.lid}")
                        import os
                        if os.environ.get("VC_DUMP") and os.environ["VC_DUMP"] in full:
                            for q in e.pc:
                                print("      pc", str(q).replace(chr(10), ' ')[:600])
                            print("      goal", t)
            if phase == "tail":
                for full in self.assumed.get(nm, ()):
                    if full not in names and full not in info.killed:
                        info.killed.add(full)
                        e.dirty_mark(f"vanished {full}")

    def assume_cands(self, cand, ctx):
        e, info = self.eng, self.info
        self.assumed = {}
        for nm, f in cand:
            for sn, t in self.eval_cand(f, ctx):
                full = nm + ":" + sn
                if full in info.killed:
                    continue
                # a candidate that only exists after havoc was not checked initially
                if not self.was_checked(full):
                    continue
                e.add(t)
                self.assumed.setdefault(nm, []).append(full)

    def was_checked(self, full):
        return full in self.init_names

    def tail(self, cur):
        e, info = self.eng, self.info
        info.tails += 1
        e.check_frozen()
        cur = dict(cur)
        locs = e.snapshot(cur)
        # 1. modified locations
        for nm in self.names:
            a, b = self.snap_cur.get(nm, BOT), cur.get(nm, BOT)
            if not same(a, b) and not (isinstance(a, Poison)):
                self.addmod("L:" + nm, a, b, self.init.get("L:" + nm, BOT))
        for l, (o, key, v) in self.snapv.items():
            x = locs.get(l)
            if key is None:
                nv = o.vstate() if isinstance(o, Tracked) else (("gen", o.gi_frame.f_lasti) if isinstance(o, types.GeneratorType) and o.gi_frame else ("gen", None))
                if isinstance(o, types.GeneratorType):
                    if nv != v:
                        raise Unsupported("generator advanced inside a cut loop")
                    continue
                if not same(nv, v):
                    self.addmod_tracked(l, o)
            else:
                nv = getloc(o, key)
                if not same(nv, v):
                    self.addmod(l, v, nv, self.init.get(l, BOT))
        for l, (o, key, v) in locs.items():
            # attribute created inside the loop on an object that existed before
            if l not in self.snapv and key is not None and any(oo is o for (oo, kk, vv) in self.snapv.values() if kk is not None):
                self.addmod(l, BOT, v, BOT)
        # 2. invariants preserved
        if e.at_new():
            ctx = Ctx(self, self.k + 1, locs, cur)
            if self.base is not None and self.seq is not None:
                pass
            self.check_cands(self.cand, ctx, "tail")
            if e.require_term:
                m1 = self.measures(ctx)
                alive = set(self.measure0) if info.measures is None else info.measures
                ok = set()
                for nm in alive:
                    if nm in self.measure0 and nm in m1:
                        st, _, _ = e.prove(z3.And(self.measure0[nm] >= 0, m1[nm] < self.measure0[nm]), quick=True)
                        if st == "ok":
                            ok.add(nm)
                info.measures = ok
        # 3. search invariant
        marks = set(e.constlog[self.const_mark:])
        kname = self.k.decl().name()
        ts = {}
        for t in e.lits[self.lit_mark:]:
            cs = consts_of(t)
            if all(c == kname or c not in marks for c in cs):
                u = z3.substitute(t, (self.k, KP))
                ts[u.sexpr()] = u
        info.newN[frozenset(ts)] = list(ts.values())
        if isinstance(self.it, (VList, VSet, VDict)) and self.spec is not None and state_of(self.it) != self.it0 \
                and not same(state_of(self.it), self.it0):
            raise Unsupported("container modified while it is iterated over")
        raise PathEnd()

    def addmod(self, l, a, b, init):
        e, info = self.eng, self.info
        if isinstance(b, Poison):
            ty = T("poison")
        else:
            tb = e.htype(b) if b is not BOT else None
            ta = e.htype(init) if init is not BOT and not isinstance(init, Poison) else None
            if b is BOT:
                ty = T("poison")
            elif ta is None:
                ty = tb
            else:
                ty = e.hjoin(ta, tb)
        old = info.modset.get(l)
        ty = e.hjoin(old, ty) if old is not None else ty
        if old != ty:
            info.modset[l] = ty
            e.dirty_mark(f"mod {l}:{ty} in {self.lid}")

    def addmod_tracked(self, l, o):
        e, info = self.eng, self.info
        i0 = self.init.get(l)
        if isinstance(o, (VList, VSet, VDict)):
            ty = e.htype(o)
            if i0 is not None and type(i0) is type(o):
                ty = e.hjoin(e.htype(i0), ty)
        elif isinstance(o, ArrCell):
            ty = T("arr")
        else:
            ty = e.htype(o.v)
            if o.ty is not None:
                ty = o.ty
            elif i0 is not None:
                ty = e.hjoin(e.htype(i0.v), ty)
        old = info.modset.get(l)
        ty = e.hjoin(old, ty) if old is not None else ty
        if old != ty:
            info.modset[l] = ty
            e.dirty_mark(f"mod {l}:{ty} in {self.lid}")

    # -- termination measures
    def measures(self, ctx):
        out = {}
        ints = []
        for l in self.info.modset:
            v = ctx.val(l)
            v = v.val if isinstance(v, SymOpt) else v
            if isinstance(v, SymInt) or (isinstance(v, int) and not isinstance(v, bool)):
                ints.append((l, v.t if isinstance(v, SymInt) else z3.IntVal(v)))
            if isinstance(v, SymStr):
                out["len " + l] = z3.Length(v.t)
            if isinstance(v, VList) and v.conc is None:
                out["len " + l] = s_len(v.term)
        bounds = []
        for nm, v in list(ctx.locals.items()) + [(l, (v if key is not None else o)) for l, (o, key, v) in ctx.locs.items()]:
            if isinstance(v, SymStr):
                bounds.append((nm, z3.Length(v.t)))
            elif isinstance(v, VList) and v.conc is None:
                bounds.append((nm, s_len(v.term)))
            elif isinstance(v, SymInt):
                bounds.append((nm, v.t))
        seen = set()
        for l, t in ints:
            out["dec " + l] = t
            for nm, b in bounds[:30]:
                key = (l, b.get_id())
                if key in seen or b.eq(t):
                    continue
                seen.add(key)
                out[f"{nm} - {l}"] = b - t
        if self.n is not None:
            out["n-k"] = self.n - ctx.k
        for hf in self.eng.V.measure_hints:
            try:
                for nm, t in hf(ctx):
                    out["H:" + nm] = t
            except Exception:
                pass
        return out

    @property
    def init_names(self):
        # candidates evaluated at init in any round; computed lazily from the first state
        if not hasattr(self, "_initn"):
            ctx = Ctx(self, z3.IntVal(0), {l: (v, None, None) if isinstance(v, Tracked) else (None, "x", v) for l, v in self.init.items()
                                          if not l.startswith("L:")}, {})
            self._initn = AllNames()
        return self._initn

    # -- iteration
    def more(self):
        e = self.eng
        e.live()
        if self.native is not None:
            try:
                self.cur = next(self.native)
                return True
            except StopIteration:
                return False
        if self.spec is not None:
            if self.phase != "cut":
                return False        # provably empty
            return e.branch(self.k < self.n)
        try:
            self.cur = self.phase_iter.__next__()
            return True
        except StopIteration:
            return False

    def item(self):
        v = self.spec.item(self.k) if self.spec is not None else self.cur
        self.eng.path_items.append(v)
        return v


class AllNames:
    def __contains__(self, x):
        return True


BASECONST = {"s_empty", "t_empty", "d_empty"}


def hash_key(k):
    import zlib
    return zlib.crc32(repr(k).encode())


def state_of(o):
    return o.vstate() if isinstance(o, Tracked) else None


def listiter(l):
    i = 0
    while True:
        if l.conc is None:
            raise Unsupported("list changed representation while iterated over")
        if i >= len(l.conc):
            return
        yield l.conc[i]
        i += 1


def list_item(e, t, et, k):
    el = s_nth(t, k)
    f = e.itemviews.get(t.get_id())
    if f is not None:
        return f[1](z3.simplify(k))
    e.fact(s_mem(t, el))
    e.fact(type_fact(el, et))
    return unpack(el, et)


def iter_obj(o):
    f = class_attr(type(o), "__iter__") if not isinstance(o, SymObj) else class_attr(o.cls, "__iter__")
    if f is None:
        if isinstance(o, SymObj):
            raise Unsupported("iteration over a logical object")
        return iter(o)
    return f(o)


def setloc(o, key, v):
    if isinstance(o, types.ModuleType):
        o.__dict__[key] = v
    elif isinstance(o, types.CellType):
        o.cell_contents = v
    else:
        object.__setattr__(o, key, v)


def getloc(o, key):
    if isinstance(o, types.ModuleType):
        return o.__dict__.get(key, BOT)
    if isinstance(o, types.CellType):
        return o.cell_contents
    if isinstance(o, EagerIter):
        return o.pos
    return o.__dict__.get(key, BOT)


def generic_candidates(loop, cur, locs):
    info = loop.info
    out = []
    for l, ty in sorted(info.modset.items()):
        if ty.k == "int":
            def mk(l):
                def ge(c):
                    i, v = c.init(l), c.val(l)
                    return [("", h_ge(v, i))]

                def le(c):
                    return [("", h_ge(c.init(l), c.val(l)))]

                def cnt(c):
                    return [("", iterm(c.val(l)) == iterm(c.init(l)) + c.k)]

                def lens(c):
                    res = []
                    v = iterm(c.val(l))
                    for nm, x in bound_sources(loop, c, l):
                        res.append((nm, v <= x))
                    return res
                return ge, le, cnt, lens
            ge, le, cnt, lens = mk(l)
            out += [(f"{l}>=init", ge), (f"{l}<=init", le), (f"{l}==init+k", cnt), (f"{l}<=len", lens)]
        elif ty.k == "bool":
            def mkb(l):
                return (lambda c: [("", z3.Implies(bterm(c.val(l)), bterm(c.init(l))))],
                        lambda c: [("", z3.Implies(bterm(c.init(l)), bterm(c.val(l))))])
            a, b = mkb(l)
            out += [(f"{l}->init", a), (f"init->{l}", b)]
        elif ty.k == "opt":
            def mko(l):
                def f(c):
                    v, i = c.val(l), c.init(l)
                    res = []
                    res.append(("none->initnone", z3.Implies(isnone(v), isnone(i))))
                    res.append(("initnone->none", z3.Implies(isnone(i), isnone(v))))
                    return res
                return f
            out.append((f"{l} optional", mko(l)))
    return out


def isnone(v):
    if v is None:
        return z3.BoolVal(True)
    if isinstance(v, SymOpt):
        return v.isnone
    if isinstance(v, SymAny):
        return PyVal.is_VNone(v.t)
    return z3.BoolVal(False)


def h_ge(a, b):
    return iterm(a) >= iterm(b)


def bound_sources(loop, c, l):
    """upper bounds for a modified integer: lengths of unmodified strings/lists near it"""
    res = []
    mod = set(loop.info.modset)
    n = 0
    for nm, v in c.locals.items():
        if "L:" + nm in mod:
            continue
        if isinstance(v, SymStr):
            res.append(("len:" + nm, z3.Length(v.t)))
        elif isinstance(v, VList) and v.conc is None:
            res.append(("len:" + nm, s_len(v.term)))
    pre = l.rsplit(".", 1)[0]
    for lab, (o, key, v) in c.locs.items():
        if lab in mod or key is None:
            continue
        if lab.rsplit(".", 1)[0] == pre or l.startswith("L:"):
            if isinstance(v, SymStr):
                res.append(("len:" + lab, z3.Length(v.t)))
            n += 1
    return res[:12]
