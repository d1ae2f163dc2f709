import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *
from pyvc.lib import snapshot_term

fld = lambda n: uf("fld_" + n, ObjS, PyVal)


def ident(e):
    """identity of a snapshot (an element of a list)"""
    return PyVal.vs(fld("hash")(PyVal.vo(fld("call")(PyVal.vo(e)))))


def result_of(e):
    return fld("result")(PyVal.vo(e))


class Matching:
    """the snapshots of a list whose identity is h"""

    def __init__(self, V, l, h):
        self.V, self.t, self.h = V, named(V, l.toterm()), named(V, sterm(h))
        self.n = s_len(self.t)
        self.w = V.e.const("matching", I)

    def is_(self, e):
        return ident(e) == self.h

    def some(self):
        """as an assumption: with a witness"""
        b = self.V.e.const("some", B)
        self.V.e.fact(z3.Implies(b, z3.And(0 <= self.w, self.w < self.n, self.is_(s_nth(self.t, self.w)), s_mem(self.t, s_nth(self.t, self.w)))))
        self.V.e.fact(forall_in(self.t, lambda e: z3.Or(b, z3.Not(self.is_(e)))))
        return b

    def some_now(self, *also):
        """as a goal"""
        cs = [exists_in(self.t, self.is_), z3.And(self.n > 0, self.is_(s_nth(self.t, self.n - 1)))]
        for e in also:
            cs.append(z3.And(s_mem(self.t, e), self.is_(e)))
        return z3.Or(*cs)

    def result(self, v):
        p = pack(v)
        return z3.Not(forall_in(self.t, lambda e: z3.Not(z3.And(self.is_(e), result_of(e) == p))))

    def only(self, v):
        p = pack(v)
        y = z3.Const("yo", PyVal)
        return z3.ForAll([y], z3.Implies(z3.And(s_mem(self.t, y), self.is_(y)), result_of(y) == p), patterns=[s_mem(self.t, y)])


def call_hints(V, h):
    h = named(V, sterm(h))

    def hint(c):
        out = []
        if c.seq is not None:
            out.append(("no match so far", forall_in(c.seq, lambda e: ident(e) != h, hi=c.k)))
        y = z3.Const("yc", PyVal)
        for l, v, i in c.lists():
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            out.append((f"{l} without match", z3.ForAll([y], z3.Implies(s_mem(t, y), ident(y) != h), patterns=[s_mem(t, y)])))
            if c.seq is not None:
                out.append((f"{l} from the visited", z3.ForAll([y], z3.Implies(s_mem(t, y), s_mem(c.seq, y)), patterns=[s_mem(t, y)])))
        return out
    V.hint(hint)


class Text:
    """json text of a value"""

    def __init__(self, term):
        self.term = term

    def encode(self, *a):
        return self


class Hash:
    def update(self, text):
        self.text = text

    def hexdigest(self):
        return mkstr(self.name(z3.simplify(self.text.term)))


def opaque_hash(V, F):
    """contract of json.dumps and sha1: the identity is an (unknown) function of the value"""
    V.e.abs_only = True
    V.patch(F.json, "dumps", lambda o, **k: Text(snapshot_term(o)))
    known = []

    texts = []

    def ident_of(t):
        texts.append(t)
        for u, h in known:
            if u.eq(t):
                return h
        known.append((t, V.e.const("identity", S)))
        return known[-1][1]
    Hash.name = staticmethod(ident_of)
    V.patch(F.hashlib, "sha1", lambda *a: Hash())
    V.e.assumptions.add("json.dumps and sha1: the identity of a call is a function of the called function's name and the arguments; "
                        "different calls are assumed to have different identities only where the contract says so")
    return texts


def same_identity(V, texts, na, nb, x, y, u, v, x1, y1):
    p, q = [PyVal.vd(t) for t in texts]
    e = p == q
    g = lambda d, k: d_get(d, PyVal.VStr(z3.StringVal(k)))
    first = lambda l: s_nth(PyVal.vl(l), 0)
    second = lambda l: s_nth(PyVal.vl(l), 1)
    k = lambda d: d_get(PyVal.vd(g(d, "kwargs")), PyVal.VStr(z3.StringVal("k")))
    V.e.fact(z3.Implies(e, z3.And(g(p, "func") == g(q, "func"), g(p, "args") == g(q, "args"), g(p, "kwargs") == g(q, "kwargs"))))
    V.e.fact(z3.Implies(e, z3.And(first(g(p, "args")) == first(g(q, "args")), second(g(p, "args")) == second(g(q, "args")), k(p) == k(q))))
    V.ensure("calls of different functions are different", V.sym(z3.Implies(e, pack(na) == pack(nb))))
    V.ensure("calls with different arguments are different", V.sym(z3.Implies(e, pack(x) == pack(y))))
    V.ensure("calls with different further arguments are different", V.sym(z3.Implies(e, pack(x1) == pack(y1))))
    V.ensure("calls with different named arguments are different", V.sym(z3.Implies(e, pack(u) == pack(v))))


def stored_files(V, F, d, names):
    """the files of a directory; json.load gives an unknown value for each text"""
    L = named(V, names.toterm())
    V.patch(F.os, "listdir", lambda p: names)
    fs = V.fs.cell.term
    j = z3.Int("jf")
    V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(L)), z3.And(plain(PyVal.vs(s_nth(L, j))), PyVal.is_VStr(z3.Select(fs, path_of(d, s_nth(L, j)))))), patterns=[s_nth(L, j)]))
    V.schema(F.FunctionCallSnapshot, source=AnyT)
    V.patch(F.json, "load", lambda f: V.new(Source, text=f.read()))
    V.patch(F.FunctionCallSnapshot, "from_json_object", lambda o: V.new(F.FunctionCallSnapshot, source=o.text))

    def hint(c):
        out = []
        for l, v, i in c.lists():
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            out.append((f"{l} loaded", loaded(fs, d, L, t)))
            if c.seq is not None:
                out.append((f"{l} as many", s_len(t) == c.k))
        return out
    V.hint(hint)


class Source:
    """what json.load gives for a text"""


def plain(n):
    """the name of a file in a directory (a hash is one)"""
    return z3.And(z3.Not(z3.PrefixOf(Str("/"), n)), n != Str(""))


def path_of(d, n):
    return z3.Concat(d.t, Str("/"), PyVal.vs(n))


def loaded(fs, d, L, t):
    j = z3.Int("jl")
    e = s_nth(t, j)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), fld("source")(PyVal.vo(e)) == z3.Select(fs, path_of(d, s_nth(L, j)))), patterns=[e])


def all_loaded(V, d, names, snapshots):
    L, t = named(V, names.toterm()), named(V, snapshots.toterm())
    k = V.e.const("any recording", I)
    V.e.fact(z3.And(0 <= k, k < s_len(L)) == z3.And(0 <= k, k < s_len(L)))
    return z3.And(s_len(t) == s_len(L), z3.Implies(z3.And(0 <= k, k < s_len(t)),
                                                  fld("source")(PyVal.vo(s_nth(t, k))) == z3.Select(V.fs.cell.term, path_of(d, s_nth(L, k)))))


def as_json(self):
    """what is stored for a snapshot (contract `stored`)"""
    return unpack(uf("stored for", ObjS, PyVal)(PyVal.vo(pack(self))), AnyT)


def a_call(V, F, calls):
    """an arbitrary one of the calls: no other has its identity"""
    L = named(V, calls.toterm())
    k = V.e.const("call", I)
    j = z3.Int("jc")
    x = named(V, s_nth(L, k))
    V.e.fact(z3.And(0 <= k, k < s_len(L), s_mem(L, x)))
    V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(L)), plain(ident(s_nth(L, j)))), patterns=[s_nth(L, j)]))
    V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(L), j != k), ident(s_nth(L, j)) != ident(x)), patterns=[s_nth(L, j)]))
    V.state["index"] = k
    return unpack(x, ObjT(F.FunctionCallSnapshot))


def text_of(V, x):
    return V.mod("functions").json.dumps(as_json(x), indent=4)


def is_stored(V, x, path):
    t = V.fs.get(path)
    return z3.And(PyVal.is_VStr(t), uf("json_loads", S, PyVal)(PyVal.vs(t)) == pack(as_json(x)))


def storing_hints(V, x, path):
    k = V.state["index"]

    def hint(c):
        return [("stored", z3.Implies(c.k > k, is_stored(V, x, path))), ("not a directory", z3.Not(PyVal.is_VBool(V.fs.get(path))))] if c.seq is not None else []
    V.hint(hint)


SLOT = uf("attribute of", ObjS, S, PyVal)


class Attributes:
    """the attributes of all owners: a map from (owner, name); absent: ()"""

    def __init__(self, V, F, Owner, Attribute):
        self.V, self.Owner, self.Attribute = V, Owner, Attribute
        self.s = PyVal.VTup2(pack(V.obj(Owner, "owner")), pack(V.str("attribute")))     # an arbitrary attribute
        self.map = V.arr(z3.Const("attributes", z3.ArraySort(PyVal, PyVal)), "attributes")
        self.before = z3.Select(self.map.term, self.s)
        marks = [v for v in vars(F).values() if type(v) is object]     # a marker for "absent"
        self.missing = pack(marks[0]) if marks else PyVal.VNone
        V.e.fact(self.before != self.missing)
        self.kept = z3.If(self.before == PyVal.VTup0, self.missing, self.before)      # what is kept of an original
        V.schema(Owner, **{"__dict__": self.dict_of, "*setattr": self.set, "*delattr": self.delete})

    def key(self, o, n):
        return PyVal.VTup2(pack(o), pack(n))

    def dict_of(self, o):
        return Vars(self, o)

    def set(self, o, n, v):
        if self.V.choose(2, "replacing") == 1 and not self.V.state.get("failed") and not self.V.state.get("ran"):
            self.V.state["failed"] = True
            raise AttributeError("read-only")
        self.map.term = z3.Store(self.map.term, self.key(o, n), pack(v))

    def delete(self, o, n):
        self.map.term = z3.Store(self.map.term, self.key(o, n), PyVal.VTup0)

    def now(self):
        return z3.Select(self.map.term, self.s)

    def restored(self):
        return self.now() == self.before

    def functions(self, V):
        A = self.Attribute
        V.schema(A, __self__=ObjT(self.Owner), __name__=StrT)
        self.funcs = V.list(ObjT(A), "functions")
        L = self.L = named(V, self.funcs.toterm())
        # the first function that is this attribute; the length when there is none
        self.first = V.e.const("first", I)
        n = s_len(L)
        V.e.fact(z3.And(0 <= self.first, self.first <= n, z3.Implies(self.first < n, self.slot(s_nth(L, self.first)) == self.s)))
        j = z3.Int("ja")
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.first), self.slot(s_nth(L, j)) != self.s), patterns=[s_nth(L, j)]))
        return self.funcs

    def mocks(self, V, Mock):
        """a table of functions and what they are replaced by; `func` of a mock: the function it is for"""
        A = self.Attribute
        V.schema(Mock, func=ObjT(A))
        V.schema(A, __self__=ObjT(self.Owner), __name__=StrT)
        d = V.dict(ObjT(A), ObjT(Mock), "mocks")
        f = V.list(ObjT(A), "functions")
        L = self.L = named(V, f.toterm())
        n = s_len(L)
        D = d.toterm()
        j = z3.Int("jm")
        self.first = V.e.const("first", I)
        V.e.fact(z3.And(0 <= self.first, self.first <= n, z3.Implies(self.first < n, self.slot(s_nth(L, self.first)) == self.s)))
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.first), self.slot(s_nth(L, j)) != self.s), patterns=[s_nth(L, j)]))
        return Items(self, V, f, Mock)

    def slot(self, f):
        return PyVal.VTup2(fld("__self__")(PyVal.vo(f)), fld("__name__")(PyVal.vo(f)))

    def func_of(self, s):
        return fld("func")(PyVal.vo(s))

    def is_snapshotter(self):
        return self.slot(self.func_of(self.now())) == self.s

    def replaced_by_snapshotter(self):
        return z3.Implies(self.first < s_len(self.L), self.is_snapshotter())


class Items:
    """a dict: its items in order"""

    def __init__(self, A, V, funcs, Mock):
        self.A, self.V, self.funcs, self.Mock = A, V, funcs, Mock

    def items(self):
        V, L, A = self.V, self.A.L, self.A
        items = V.list(TupT(ObjT(A.Attribute), ObjT(self.Mock)), "items")
        t = named(V, items.toterm())
        j = z3.Int("ji")
        e = s_nth(t, j)
        V.e.fact(s_len(t) == s_len(L))
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), z3.And(PyVal.t2a(e) == s_nth(L, j), A.func_of(PyVal.t2b(e)) == s_nth(L, j))), patterns=[e]))
        return items


class Vars:
    def __init__(self, A, o):
        self.A, self.o = A, o

    def _value(self, n):
        return z3.Select(self.A.map.term, self.A.key(self.o, n))

    def get(self, n, default=None):
        v = self._value(n)
        if self.A.V.sym(v != PyVal.VTup0):
            self.A.V.e.fact(z3.And(PyVal.is_VObj(v), v != self.A.missing))
            return unpack(v, ObjT(self.A.Attribute))
        return default

    def has(self, n):
        return self.A.V.sym(self._value(n) != PyVal.VTup0)

    def __contains__(self, n):
        return bool(self.has(n))


def undone_hints(V, A):
    def hint(c):
        out = []
        n = s_len(A.L)
        now = A.now()
        j = z3.Int("jh")
        for l, v, i in c.lists():
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            e = s_nth(t, j)
            same_slot = lambda x: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), x == A.slot(s_nth(A.L, j))), patterns=[e])
            out.append((f"{l} within", s_len(t) <= n))
            out.append((f"{l} entries", same_slot(PyVal.VTup2(PyVal.t3a(e), PyVal.t3b(e)))))
            out.append((f"{l} snapshotters", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), A.func_of(e) == s_nth(A.L, j)), patterns=[e])))
            out.append((f"{l} pairs", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), z3.And(PyVal.t2a(e) == s_nth(A.L, j), A.func_of(PyVal.t2b(e)) == s_nth(A.L, j))), patterns=[e])))
            if c.seq is not None:
                out.append((f"{l} as many", s_len(t) == c.k))
            out.append((f"{l} not reached", z3.Implies(s_len(t) <= A.first, now == A.before)))
            out.append((f"{l} original", z3.Implies(s_len(t) > A.first, PyVal.t3c(s_nth(t, A.first)) == A.kept)))
            out.append((f"{l} replaced", z3.Implies(s_len(t) > A.first, A.is_snapshotter())))
            if c.seq is not None:
                out.append((f"{l} undone", z3.Implies(c.k > s_len(t) - 1 - A.first, now == A.before)))
        if c.seq is not None:
            out.append(("none", z3.Implies(s_len(c.seq) <= A.first, now == A.before)))
            out.append(("undone", z3.Implies(c.k > s_len(c.seq) - 1 - A.first, now == A.before)))
        return out
    V.hint(hint)


class Kinds:
    def __init__(self, V, F):
        self.V, self.F = V, F
        V.state["called"] = None

        def replacement(*args):
            V.state["called"] = args
        self.replacement = replacement

    def choose(self):
        import types
        V = self.V
        m = types.ModuleType("a_module")
        exec(compile("""
def plain(x): pass
class Outer:
    class Base:
        @staticmethod
        def static(x): pass
        @classmethod
        def of_class(cls, x): pass
        def method(self, x): pass
    class Derived(Base):
        pass
    class Slots:
        __slots__ = ()
""", "a_module", "exec"), m.__dict__)
        V.patch(self.F.sys, "modules", {"a_module": m})
        B, D = m.Outer.Base, m.Outer.Derived
        b, d = B(), D()
        self.places = [m, B, D, b, d]
        k = V.choose(7, "kind")
        return [
            lambda: (m.plain, m, [lambda x: m.plain(x)]),
            lambda: (B.static, B, [lambda x: B.static(x), lambda x: D.static(x), lambda x: b.static(x), lambda x: d.static(x)]),
            lambda: (D.static, B, [lambda x: B.static(x), lambda x: D.static(x), lambda x: b.static(x)]),
            lambda: (B.of_class, B, [lambda x: B.of_class(x), lambda x: D.of_class(x)]),
            lambda: (D.of_class, D, [lambda x: D.of_class(x)]),
            lambda: (b.method, b, [lambda x: b.method(x)]),
            lambda: (d.method, d, [lambda x: d.method(x)]),
        ][k]()

    def attributes(self):
        return [dict(vars(p)) for p in self.places]

    def same(self, before):
        return all(set(x) == set(y) and all(x[k] is y[k] for k in x) for x, y in zip(before, self.attributes()))
