import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def tset(d, x):
    """the set the dictionary d has for x"""
    return PyVal.vset(d_get(d.toterm(), x))


class Probe:
    """two arbitrary names a, b; an arbitrary dependency d; an arbitrary resource r"""

    def __init__(self, V):
        self.V = V
        self.a, self.b, self.d, self.r = pack(V.str("a")), pack(V.str("b")), pack(V.str("d")), pack(V.any("r"))
        V.assume(V.sym(self.a != self.b))
        self.deps, self.res = V.dict(StrT, SetT(StrT), "dependencies"), V.dict(StrT, SetT(AnyT), "resources")
        y = z3.Const("yd", PyVal)
        for x in (self.deps, self.res):      # defaultdict(set)
            D = x.toterm()
            V.e.fact(z3.ForAll([y], z3.And(t_mem(d_dom(D), y), PyVal.is_VSet(d_get(D, y))), patterns=[d_get(D, y)]))

        p, q = z3.Consts("pi qi", SetS)
        V.e.fact(z3.ForAll([p, q], z3.Implies(z3.And(t_mem(p, self.r), t_mem(q, self.r)), t_card(t_inter(p, q)) > 0), patterns=[t_card(t_inter(p, q))]))

    def dep(self, x):
        return t_mem(tset(self.deps, x), self.d)

    def uses(self, x):
        return t_mem(tset(self.res, x), self.r)


def plan_hints(V, P, todo_all, done, reserved):
    T, D, R = todo_all.term, done.term, reserved.term
    a, b, d, r = P.a, P.b, P.d, P.r

    def hint(c):
        out = []
        if c.seq is not None:
            m = z3.And(s_mem(c.seq, d), s_idx(c.seq, d) < c.k, t_mem(T, d), c.seq == named(V, t_seq(tset(P.deps, a))))
            out.append(("visited dependencies are finished", z3.Implies(m, t_mem(D, d))))
        for l, v, i in c.bools():
            if c.seq is None or isinstance(v, Poison) or not isinstance(v, (bool, SymBool)):
                continue
            m = z3.And(s_mem(c.seq, d), s_idx(c.seq, d) < c.k, t_mem(T, d), c.seq == named(V, t_seq(tset(P.deps, a))))
            out.append((f"{l} only with finished dependencies", z3.Implies(z3.And(bterm(v), m), t_mem(D, d))))
            out.append((f"not {l} only with finished dependencies", z3.Implies(z3.And(z3.Not(bterm(v)), m), t_mem(D, d))))
        for l, v, i in c.lists():
            if v.conc is not None and len(v.conc) > 0:
                continue
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            out.append((f"{l} dependencies", z3.Implies(z3.And(s_mem(t, a), P.dep(a), t_mem(T, d)), t_mem(D, d))))
            for n, x in (("a", a), ("b", b)):
                out.append((f"{l} free {n}", z3.Implies(z3.And(s_mem(t, x), P.uses(x)), z3.Not(t_mem(R, r)))))
                if c.seq is not None:
                    out.append((f"{l} visited {n}", z3.Implies(s_mem(t, x), s_mem(c.seq, x))))
                    out.append((f"{l} behind {n}", z3.Implies(s_mem(t, x), s_idx(c.seq, x) < c.k)))
            out.append((f"{l} exclusive", z3.Not(z3.And(s_mem(t, a), s_mem(t, b), P.uses(a), P.uses(b)))))
            for ls, s, si in c.sets():
                out.append((f"{ls} keeps", z3.Implies(t_mem(R, r), t_mem(s.term, r))))
                for n, x in (("a", a), ("b", b)):
                    out.append((f"{ls} has {l} {n}", z3.Implies(z3.And(s_mem(t, x), P.uses(x)), t_mem(s.term, r))))
        return out
    V.hint(hint)


class Tasks:
    """task_of(name): the pool's task that runs the case"""

    def __init__(self, V, cls):
        self.V, self.cls = V, cls
        self.of = z3.Function("task_of", PyVal, ObjS)
        self.name = z3.Function("name_of_task", ObjS, PyVal)
        n = z3.Const("nt", PyVal)
        V.e.fact(z3.ForAll([n], self.name(self.of(n)) == n, patterns=[self.of(n)]))

    def task(self, name):
        t = self.of(pack(name))
        self.V.e.fact(self.name(t) == pack(name))
        return SymObj(self.cls, t)

    def case(self, task):
        return self.name(task.t)


def planned_facts(V, P, L, todo, asked, done, reserved):
    """contract of plan, for every case"""
    y, z = z3.Consts("yp zp", PyVal)
    t = L.toterm()
    f = V.e.fact
    f(z3.ForAll([y], z3.Implies(s_mem(t, y), z3.And(t_mem(asked.term, y), z3.Implies(P.uses(y), z3.Not(t_mem(reserved.term, P.r))))), patterns=[s_mem(t, y)]))
    f(z3.ForAll([y], z3.Implies(z3.And(s_mem(t, y), P.dep(y), t_mem(todo.term, P.d)), t_mem(done.term, P.d)), patterns=[s_mem(t, y)]))
    f(z3.ForAll([y, z], z3.Implies(z3.And(s_mem(t, y), s_mem(t, z), P.uses(y), P.uses(z)), y == z), patterns=[z3.MultiPattern(s_mem(t, y), s_mem(t, z))]))


def whole(V, todo, done):
    """a subset that is as large as the (finite) set is the set"""
    y = z3.Const("yw", PyVal)
    T, D = todo.term, done.term
    sub = z3.ForAll([y], z3.Implies(t_mem(D, y), t_mem(T, y)), patterns=[t_mem(D, y)])
    V.e.fact(z3.Implies(z3.And(sub, t_card(D) >= t_card(T)), z3.ForAll([y], z3.Implies(t_mem(T, y), t_mem(D, y)), patterns=[t_mem(T, y)])))


def thread_hints(V, P, tasks, runner, todo, started, finished, holder):
    T = todo.term
    y, z = z3.Consts("yt zt", PyVal)

    def hint(c):
        out = []
        DN, R, ST, FI = runner.done.term, runner.reserved_resources.term, started.term, finished.term
        fa = lambda s, f: z3.ForAll([y], z3.Implies(t_mem(s, y), f(y)), patterns=[t_mem(s, y)])
        out.append(("done are cases of the run", fa(DN, lambda y: t_mem(T, y))))
        out.append(("done are finished", fa(DN, lambda y: t_mem(FI, y))))
        out.append(("the holder uses it", z3.Implies(t_mem(R, P.r), P.uses(pack(holder.v)))))
        for l, v, i in c.dicts():
            D = v.toterm()
            dom = d_dom(D)
            out.append((f"{l} tasks", fa(dom, lambda y: d_get(D, y) == PyVal.VObj(tasks.of(y)))))
            out.append((f"{l} cases of the run", fa(dom, lambda y: t_mem(T, y))))
            out.append((f"{l} hold their resources", fa(dom, lambda y: z3.Implies(P.uses(y), t_mem(R, P.r)))))
            out.append((f"{l} exclusive", z3.ForAll([y, z], z3.Implies(z3.And(t_mem(dom, y), t_mem(dom, z), P.uses(y), P.uses(z)), y == z),
                                                    patterns=[z3.MultiPattern(t_mem(dom, y), t_mem(dom, z))])))
            out.append((f"started are in {l} or done", fa(ST, lambda y: z3.Or(t_mem(dom, y), t_mem(DN, y)))))
            out.append((f"{l} are started", fa(dom, lambda y: t_mem(ST, y))))
            out.append((f"{l} are not done", fa(dom, lambda y: z3.Not(t_mem(DN, y)))))
            if c.seq is not None:
                out.append((f"{l} and what is to start exclude each other",
                            z3.ForAll([y, z], z3.Implies(z3.And(t_mem(dom, y), s_mem(c.seq, z), P.uses(y), P.uses(z)), y == z),
                                      patterns=[z3.MultiPattern(t_mem(dom, y), s_mem(c.seq, z))])))
                out.append((f"{l} done are to come", fa(dom, lambda y: z3.Implies(t_mem(DN, y), s_mem(c.seq, y)))))
                out.append((f"{l} done are yet to come", fa(dom, lambda y: z3.Implies(z3.And(t_mem(DN, y), s_mem(c.seq, y)), s_idx(c.seq, y) >= c.k))))
                out.append((f"{l} has what is to come", z3.ForAll([y], z3.Implies(z3.And(s_mem(c.seq, y), s_idx(c.seq, y) >= c.k), t_mem(dom, y)),
                                                                 patterns=[s_mem(c.seq, y)])))
            h = pack(holder.v)
            out.append((f"{l} has the holder", z3.Implies(t_mem(R, P.r), t_mem(dom, h))))
            for ls, s, si in c.sets():
                out.append((f"{ls} within {l}", fa(s.term, lambda y: t_mem(dom, y))))
        for ls, s, si in c.sets():
            out.append((f"{ls} finished", fa(s.term, lambda y: t_mem(FI, y))))
            base = c.loop.base
            if base is not None and z3.is_app(base) and base.decl().eq(d_ord):
                out.append((f"{ls} within the looped dictionary", fa(s.term, lambda y: t_mem(d_dom(base.arg(0)), y))))
            for n, v in c.locals.items():
                if isinstance(v, VDict):
                    out.append((f"{ls} within local {n}", fa(s.term, lambda y: t_mem(d_dom(v.toterm()), y))))
        return out
    V.hint(hint)


class Parts:
    def __init__(self, V, cases):
        self.V, self.cases = V, cases
        self.name = V.str("a")
        self.asked, self.cur = V.ghost(VSet()), V.cell(V.str("before"), "current case", StrT)
        self.d, self.r = pack(V.str("d")), pack(V.any("r"))
        self.case_of = z3.Function("case_of", PyVal, PyVal)
        self.deps_of = z3.Function("deps_of", PyVal, SeqS)
        self.res_of = z3.Function("res_of", PyVal, SeqS)

    def case(self, name):
        self.asked.add(name)
        self.cur.v = name
        return SymAny(self.case_of(pack(name)))

    def ask(self, method, selection, cache):
        self.V.ensure("dependencies within the run, also those with cached results", self.V.both(selection is self.cases, cache is None))

    def deps(self, method):
        return VList(term=self.deps_of(pack(method)), et=StrT)

    def res(self, method):
        return VList(term=self.res_of(pack(method)), et=AnyT)

    def deps_term(self):
        return self.deps_of(self.case_of(pack(self.name)))

    def res_term(self):
        return self.res_of(self.case_of(pack(self.name)))


def init_hints(V, parts):
    a = pack(parts.name)

    def hint(c):
        out = []
        asked, cur = t_mem(parts.asked.term, a), pack(parts.cur.v)
        if c.seq is not None:
            take_steps(V, c.seq, c.k)
            out.append(("asked", z3.Implies(s_mem(s_take(c.seq, c.k), a), asked)))
            for l, v, i in c.sets():
                if l.startswith("G:"):
                    continue
                out.append((f"{l} cases", t_mem(v.term, a) == s_mem(s_take(c.seq, c.k), a)))
        for l, v, i in c.dicts():
            D = v.toterm()
            has = t_mem(d_dom(D), a)
            out.append((f"{l} is of sets", z3.Implies(has, PyVal.is_VSet(d_get(D, a)))))
            for n, x, want in (("dep", parts.d, s_mem(parts.deps_term(), parts.d)), ("res", parts.r, s_mem(parts.res_term(), parts.r))):
                have = z3.And(has, t_mem(PyVal.vset(d_get(D, a)), x))
                out.append((f"{l} no other {n}", z3.Implies(have, want)))
                out.append((f"{l} has {n} when asked", z3.Implies(z3.And(asked, want), have)))
                out.append((f"{l} has {n} when asked before", z3.Implies(z3.And(asked, cur != a, want), have)))
                if c.seq is not None:
                    out.append((f"{l} has {n} so far", z3.Implies(z3.And(cur == a, s_mem(s_take(c.seq, c.k), x)), have)))
        return out
    V.hint(hint)


def take_steps(V, s, k):
    k = z3.simplify(k)
    for j in (k, k + 1):
        V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(s)), s_take(s, j) == s_snoc(s_take(s, j - 1), s_nth(s, j - 1))))


class Posts:
    """what is to be reported for a case: the first record of its batch's report, a failure if there is none"""

    def __init__(self, V, batches):
        self.V, self.batches = V, batches
        self.Res = V.cls("reports", "TestResult")
        self.rt = TupT(StrT, EnumT(self.Res), RealT)
        self.recs = z3.Function("records of report", S, SeqS)
        self.post = z3.Function("report of case", PyVal, PyVal)
        self.x = V.str("x")
        f = V.mod("runs").case_batch_dir_and_report_file(batches, self.x)[1]
        x = pack(self.x)
        R = self.records(f).toterm()
        self.V.e.fact(self.post(x) == z3.If(s_len(R) > 0, s_nth(R, 0), pack((self.x, self.Res.FAIL, 0))))

    def records(self, file):
        return VList(term=self.recs(sterm(file)), et=self.rt)

    def exactly(self, L, D):
        """x is done exactly when its report is there"""
        return z3.Implies(t_mem(D, pack(self.x)), s_mem(L, self.post(pack(self.x))))


def report_hints(V, P, posts, runner, todo):
    x, T = pack(posts.x), todo.term
    a, b = z3.Consts("cua cub", SetS)
    V.e.fact(z3.ForAll([a, b], t_card(t_union(a, b)) == t_card(a) + t_card(b) - t_card(t_inter(a, b)), patterns=[t_card(t_union(a, b))]))
    p = posts.post(x)

    def hint(c):
        out = []
        D = runner.done.term
        left = iterm(runner.left)
        R = runner.reports.toterm()
        k = c.k if c.seq is not None else z3.IntVal(0)
        n = s_len(c.seq) if c.seq is not None else z3.IntVal(0)
        for nm, rest in (("", z3.IntVal(0)), (" and to come", n)):
            out.append(("as many left" + nm, left - rest == t_card(T) - t_card(D)))
            out.append(("as many reports" + nm, s_len(R) + rest == t_card(D)))
        for l, v, i in c.lists():
            if v.conc is not None and len(v.conc) > 0:
                continue
            try:
                L = v.toterm()
            except (Exception, Unsupported):
                continue
            out.append((f"{l} reports what is done", z3.Implies(t_mem(D, x), s_mem(L, p))))
            if c.seq is not None:
                out.append((f"{l} reports so far", z3.Implies(z3.And(s_mem(c.seq, x), s_idx(c.seq, x) < k), s_mem(L, p))))
                out.append((f"{l} reports what was done", z3.Implies(z3.And(t_mem(D, x), z3.Not(s_mem(c.seq, x))), s_mem(L, p))))
                out.append((f"{l} one for each", s_len(L) == k))
        return out
    V.hint(hint)
