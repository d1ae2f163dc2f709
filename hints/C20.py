import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *

walked = z3.Function("walked", PyVal, B)
root_of = z3.Function("root of", I, PyVal)
files_of = z3.Function("files of", I, SeqS)


def joined(a, b):
    """os.path.join for a directory name without a trailing slash and a relative second part"""
    return z3.Concat(a, Str("/"), b)


class Walk:
    """an arbitrary walk: the i-th directory is root_of(i) with the files files_of(i); pi, pj: an arbitrary file of it"""

    def __init__(self, V):
        self.V = V
        self.roots = V.list(AnyT, "directories")
        self.pi, self.pj = V.int("directory"), V.int("file number")
        self.cur = V.cell(0, "current directory", IntT)
        V.itemview(self.roots, self.entry)
        e = V.e
        e.assume(z3.And(0 <= self.pi.t, self.pi.t < s_len(self.roots.toterm()), 0 <= self.pj.t, self.pj.t < s_len(files_of(self.pi.t))))
        self.rootfact(self.pi.t)
        self.filefact(self.pi.t, self.pj.t)
        self.p = mkstr(joined(PyVal.vs(root_of(self.pi.t)), PyVal.vs(s_nth(files_of(self.pi.t), self.pj.t))))

    def rootfact(self, i):
        r = root_of(i)
        self.V.e.fact(z3.And(PyVal.is_VStr(r), z3.Length(PyVal.vs(r)) > 0, z3.Not(z3.SuffixOf(Str("/"), PyVal.vs(r)))))

    def filefact(self, i, j):
        e = self.V.e
        f = s_nth(files_of(i), j)
        e.fact(PyVal.is_VStr(f))
        e.fact(z3.Not(z3.PrefixOf(Str("/"), PyVal.vs(f))))
        e.fact(z3.Length(PyVal.vs(f)) > 0)
        e.fact(walked(PyVal.VStr(joined(PyVal.vs(root_of(i)), PyVal.vs(f)))))

    def entry(self, i):
        V = self.V
        self.rootfact(i)
        self.cur.v = SymInt(i) if not isinstance(i, int) else i
        files = VList(term=files_of(i), et=StrT)

        def file(j):
            self.filefact(i, j)
            return mkstr(PyVal.vs(s_nth(files_of(i), j)))
        V.itemview(files, file)
        dirs = V.list(StrT, "directories in it")
        return (mkstr(PyVal.vs(root_of(i))), dirs, files)


def md_of(base, name):
    return z3.Concat(base.t, Str("/"), name, Str(".md"))


def dir_of(base, name):
    return z3.Concat(base.t, Str("/"), name, Str("/"))


def belongs(base, name, p):
    """p is the expectation file of the test, or in its attachment directory"""
    return z3.Or(p.t == md_of(base, name), p.t == dir_of(base, name), z3.PrefixOf(dir_of(base, name), p.t))


def name_at(names, k):
    return PyVal.vs(s_nth(names.toterm(), iterm(k)))


def proper_names(V, names):
    V.e.fact(forall_in(names, lambda e: z3.And(PyVal.is_VStr(e), z3.Not(z3.PrefixOf(Str("/"), PyVal.vs(e))),
                                                z3.Length(PyVal.vs(e)) > 0, z3.Not(z3.SuffixOf(Str("/"), PyVal.vs(e))))))


def nobody_owns(V, names, base, p):
    return V.sym(forall_in(names, lambda e: z3.Not(belongs(base, PyVal.vs(e), p))))


def garbage_hints(V, w, owner, mark, hit):
    """p is kept by the entry mark (of the test number owner, if any), or is garbage (mark is None); hit: p has been listed or removed"""
    P = pack(w.p)
    M = None if mark is None else PyVal.VStr(mark)

    def hint(c):
        out = []
        k = c.k
        seq = c.seq
        y = z3.Const("yg", PyVal)
        for l, v, i in c.sets():
            T = v.term
            if M is None:
                ys = PyVal.vs(y)
                out.append((f"{l} does not have the file", z3.ForAll([y], z3.Implies(t_mem(T, y), ys != w.p.t), patterns=[t_mem(T, y)])))
                out.append((f"{l} has no directory of the file",
                            z3.ForAll([y], z3.Implies(z3.And(t_mem(T, y), z3.SuffixOf(Str("/"), ys)), z3.Not(z3.PrefixOf(ys, w.p.t))), patterns=[t_mem(T, y)])))
            else:
                out.append((f"{l} has the mark", t_mem(T, M)))
                if owner is not None and seq is not None:
                    out.append((f"{l} has the mark behind the owner", z3.Implies(k > owner.t, t_mem(T, M))))
        for l, v, i in c.lists():
            if l.startswith("M:") or l.startswith("L:") or (v.conc is not None and len(v.conc) > 0):
                continue
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            out.append((f"{l} walked", forall_in(t, lambda e: z3.And(PyVal.is_VStr(e), walked(e)))))
            if M is not None:
                out.append((f"{l} does not have the file", forall_in(t, lambda e: e != P)))
            else:
                out.append((f"{l} has the file", s_mem(t, P)))
                if seq is not None:
                    cur = iterm(w.cur.v)
                    out.append((f"{l} has the file behind its directory", z3.Implies(k > w.pi.t, s_mem(t, P))))
                    out.append((f"{l} has the file in later directories", z3.Implies(cur > w.pi.t, s_mem(t, P))))
                    out.append((f"{l} has the file behind it", z3.Implies(z3.And(cur == w.pi.t, k > w.pj.t), s_mem(t, P))))
        if seq is not None and M is not None and seq.decl().name() == "t_seq":
            for n, v in c.locals.items():
                v = v.val if isinstance(v, SymOpt) else v
                if isinstance(v, SymStr):
                    out.append((f"the mark is there for {n}", z3.Implies(v.t == w.p.t, s_mem(seq, M))))
                    out.append((f"the mark is yet to come for {n}", z3.Implies(z3.And(s_mem(seq, M), v.t == w.p.t), s_idx(seq, M) >= k)))
        b = bterm(hit.v)
        if M is None:
            if seq is not None:
                out.append(("hit behind it", z3.Implies(z3.And(s_mem(seq, P), s_idx(seq, P) < k), b)))
            out.append(("hit", b))
        else:
            out.append(("not hit", z3.Not(b)))
        return out
    V.hint(hint)
