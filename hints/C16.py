import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *

fld = lambda n: uf("fld_" + n, ObjS, PyVal)
H = uf("identity of repetition", I, S)
N = uf("repetition with identity", S, I)
P = uf("position of repetition", I, I)


def key_hash(e):
    """identity (text) of a key, an element of a list"""
    return PyVal.vs(fld("hash")(PyVal.vo(e)))


def ident(e):
    """identity of a snapshot"""
    return key_hash(fld("request")(PyVal.vo(e)))


def response_of(e):
    return fld("response")(PyVal.vo(e))


class Response:
    """a response"""

    @property
    def content(self):
        return "the body"

    def read(self):
        return "the body"

    async def aread(self):
        return "the body"


class StatusResponse(Response):
    """a response of requests: false, if its status is an error"""

    def __bool__(self):
        return self.ok


def response_class(V, M):
    V.schema(StatusResponse, ok=BoolT)
    return StatusResponse if hasattr(M, "SnapshotRequests") else Response


class Chain:
    """the identities of an arbitrary request, of its repetition, ...: they are different; k of them have been made: in order"""

    def __init__(self, V, M):
        self.V, self.M = V, M
        n, m = z3.Ints("n m")
        h = z3.Const("h", S)
        V.e.fact(z3.ForAll([n], z3.Implies(n >= 0, N(H(n)) == n), patterns=[H(n)]))
        V.e.fact(z3.ForAll([h], z3.And(N(h) >= -1, z3.Implies(N(h) >= 0, H(N(h)) == h)), patterns=[N(h)]))
        V.schema(M.RequestKey, hash=StrT, number=IntT)
        V.schema(M.RequestSnapshot, request=ObjT(M.RequestKey), response=ObjT(response_class(V, M)))
        self.k = V.e.const("k", I)
        V.e.fact(self.k >= 0)

    def key(self, n):
        k = self.V.obj(self.M.RequestKey, "key")
        o = PyVal.vo(pack(k))
        self.V.e.fact(z3.And(fld("hash")(o) == PyVal.VStr(H(n)), fld("number")(o) == PyVal.VInt(n)))
        return k

    def next(self, key):
        return self.key(z3.simplify(self.number(key) + 1))

    def number(self, key):
        return PyVal.vi(fld("number")(PyVal.vo(pack(key))))

    def is_kth(self, key):
        return self.V.sym(key_hash(pack(key)) == H(self.k))

    def made(self, l):
        """facts: the repetitions among the requests made are 0 .. k-1, in order"""
        L, k = named(self.V, l.toterm()), self.k
        j, n, m = z3.Ints("j n m")
        c = N(ident(s_nth(L, j)))
        f = self.V.e.fact
        f(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(L)), z3.And(c < k, z3.Implies(c >= 0, P(c) == j))), patterns=[s_nth(L, j)]))
        f(z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < k), z3.And(0 <= P(n), P(n) < s_len(L), N(ident(s_nth(L, P(n)))) == n)), patterns=[P(n)]))
        f(z3.ForAll([n, m], z3.Implies(z3.And(0 <= n, n < m, m < k), P(n) < P(m)), patterns=[z3.MultiPattern(P(n), P(m))]))
        y = z3.Const("yk", PyVal)
        f(z3.ForAll([y], z3.Implies(s_mem(L, y), z3.And(N(ident(y)) < k, N(ident(y)) >= -1)), patterns=[s_mem(L, y)]))
        self.L = L
        return l

    def left(self, c):
        return [(l, self.k - self.number(v)) for l, v in keys_in(c, self.M)]

    def hints(self):
        V, k = self.V, self.k

        def hint(c):
            out = []
            for l, v in keys_in(c, self.M):
                n = self.number(v)
                V.e.fact(z3.And(P(n) == P(n), P(n + 1) == P(n + 1), H(n) == H(n)))
                out.append((f"{l} number", z3.And(0 <= n, n <= k)))
                out.append((f"{l} identity", key_hash(pack(v)) == H(n)))
                if c.seq is not None:
                    out.append((f"{l} at", z3.Implies(n < k, P(n) >= c.k)))
                    out.append((f"{l} before", z3.Implies(n > 0, P(n - 1) < c.k)))
                    out.append((f"{l} not met", z3.And(z3.Implies(z3.And(n >= 0, n < k), P(n) >= c.k))))
            if c.seq is not None:
                out.append(("no match so far", forall_in(c.seq, lambda e: ident(e) != H(k), hi=c.k)))
            return out
        V.hint(hint)


def keys_in(c, M):
    out = []
    for l, v in list(c.locals.items()) + [(l, v) for l, (o, key, v) in c.locs.items()]:
        if isinstance(v, SymObj) and v.cls is M.RequestKey or isinstance(v, M.RequestKey):
            out.append((l, v))
    return out


class Matching:
    """the recordings with the identity of repetition k"""

    def __init__(self, V, l, chain):
        self.V, self.t, self.h = V, named(V, l.toterm()), H(chain.k)
        self.w = V.e.const("matching", I)

    def some(self):
        b = self.V.e.const("some", B)
        w, t = self.w, self.t
        self.V.e.fact(z3.Implies(b, z3.And(0 <= w, w < s_len(t), ident(s_nth(t, w)) == self.h, s_mem(t, s_nth(t, w)),
                                               s_nth(s_rev(t), s_len(t) - 1 - w) == s_nth(t, w))))
        self.V.e.fact(forall_in(t, lambda e: z3.Or(b, ident(e) != self.h)))
        return self.V.sym(b)

    def response(self, r):
        p = pack(r)
        return self.V.sym(z3.Not(forall_in(self.t, lambda e: z3.Not(z3.And(ident(e) == self.h, response_of(e) == p)))))


def appended(V, chain, now, response):
    """the requests made are those before and the k-th repetition with the response"""
    t = named(V, now.toterm())
    n = s_len(chain.L)
    last = s_nth(t, n)
    return V.sym(z3.And(s_len(t) == n + 1, s_take(t, n) == chain.L, ident(last) == H(chain.k), response_of(last) == pack(response)))


def unchanged(V, chain, now):
    return V.sym(now.toterm() == chain.L)


class OnWay:
    """snapshots made without a response, yet: the assignment of the response is followed"""

    def __init__(self, V, M, chain):
        self.V, self.M, self.chain, self.snapshot, self.response = V, M, chain, None, None
        V.patch(M.RequestSnapshot, "__new__", staticmethod(self.new))
        V.schema(M.RequestSnapshot, **{"request": ObjT(M.RequestKey), "response": ObjT(response_class(self.V, M)), "*setattr": self.set})

    def new(self, cls, request, response):
        o = self.V.obj(cls, "snapshot")
        p = PyVal.vo(pack(o))
        self.V.e.fact(fld("request")(p) == pack(request))
        if response is None:
            self.V.ensure("one snapshot is made", self.snapshot is None)
            self.snapshot = o
        else:
            self.V.e.fact(fld("response")(p) == pack(response))
        return o

    def set(self, o, n, v):
        self.V.ensure("the response is set", n == "response" and o is self.snapshot)
        self.response = v

    def last(self, now):
        """the requests made are those before and the k-th repetition"""
        t = named(self.V, now.toterm())
        n = s_len(self.chain.L)
        return self.V.sym(z3.And(s_len(t) == n + 1, s_take(t, n) == self.chain.L, ident(s_nth(t, n)) == H(self.chain.k), s_nth(t, n) == pack(self.snapshot)))


SOURCE = "source"


def plain(n):
    """the name of a file in a directory"""
    return z3.And(z3.Not(z3.PrefixOf(Str("/"), n)), n != Str(""))


class Text:
    """what json.load gives for a text"""


class Files:
    """the files of a legacy directory d, and the file f of all recordings"""

    def __init__(self, V, M, d, f, names, ignore, own_hash):
        self.V, self.d = V, d
        self.L = named(V, names.toterm())
        self.table = V.dict(StrT, AnyT, "stored")
        self.T = named(V, self.table.toterm())
        self.fs = V.fs.cell.term
        j = z3.Int("jf")
        V.e.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(self.L)), z3.And(plain(PyVal.vs(s_nth(self.L, j))), PyVal.is_VStr(z3.Select(self.fs, self.path(j))))),
                           patterns=[s_nth(self.L, j)]))
        V.schema(M.RequestSnapshot, source=AnyT)
        V.patch(M.os, "listdir", lambda p: names)
        content = V.fs.get(f)

        class Table:
            """what json.load gives: the file of all recordings has a table of them"""

            def __init__(self, text):
                self.text = text

            def get(self, n):
                V.ensure("the recordings are those of the file", V.sym(pack(self.text) == content))
                return getattr(self_table, n)
            items = property(lambda self: self.get("items"))
            values = property(lambda self: self.get("values"))
            keys = property(lambda self: self.get("keys"))

            def __getitem__(self, k):
                return self.get("__getitem__")(k)
        self_table = self.table
        V.patch(M.json, "load", lambda f: Table(f.read()))

        def read(o, ignore_headers=True, json_to_hash=None):
            V.ensure("recordings are read with the settings given", ignore_headers is ignore and json_to_hash is own_hash)
            return V.new(M.RequestSnapshot, source=o.text if isinstance(o, Table) else o)
        V.patch(M.RequestSnapshot, "from_json_object", read)
        V.hint(self.hint)

    def path(self, j):
        return z3.Concat(self.d.t, Str("/"), PyVal.vs(s_nth(self.L, j)))

    def part(self, t, off, n, value):
        j = z3.Int("jl")
        return z3.ForAll([j], z3.Implies(z3.And(off <= j, j < off + n), source(s_nth(t, j)) == value(j - off)), patterns=[s_nth(t, j)])

    def file_value(self, j):
        return z3.Select(self.fs, self.path(j))

    def table_value(self, j):
        return d_get(self.T, s_nth(d_ord(self.T), j))

    def hint(self, c):
        out = []
        for l, v, i in c.lists():
            try:
                t = v.toterm()
            except (Exception, Unsupported):
                continue
            if c.seq is not None or c.loop.base is not None:
                i0 = c.init(l)
                if not isinstance(i0, VList):
                    continue
                n0 = s_len(named(self.V, i0.toterm()))
                out.append((f"{l} more", s_len(t) == n0 + c.k))
                out.append((f"{l} files", self.part(t, 0, c.k, self.file_value)))
                out.append((f"{l} all files", self.part(t, 0, n0, self.file_value)))
                out.append((f"{l} table after", self.part(t, n0, c.k, self.table_value)))
        return out

    def all_loaded(self, now, files, table):
        V = self.V
        t = named(V, now.toterm())
        n, m = z3.If(bterm(files), s_len(self.L), 0), z3.If(bterm(table), s_len(d_ord(self.T)), 0)
        k = V.e.const("any recording", I)
        e = source(s_nth(t, k))
        return V.sym(z3.And(s_len(t) == n + m, z3.Implies(z3.And(0 <= k, k < n), e == self.file_value(k)),
                            z3.Implies(z3.And(n <= k, k < n + m), e == self.table_value(k - n))))


def source(e):
    return fld("source")(PyVal.vo(e))


class Storing:
    """an arbitrary one of the requests made, none other has its identity; it may have no response"""

    def __init__(self, V, M):
        self.V, self.M = V, M
        V.schema(M.RequestKey, hash=StrT)
        V.schema(M.RequestSnapshot, request=ObjT(M.RequestKey), response=OptT(ObjT(response_class(V, M))))

    def a_request(self, made):
        V = self.V
        L = named(V, made.toterm())
        self.k, self.L = V.e.const("request", I), L
        k = self.k
        j = z3.Int("jc")
        x = named(V, s_nth(L, k))
        self.x = x
        f = V.e.fact
        f(z3.And(0 <= k, k < s_len(L), s_mem(L, x), response_of(x) != PyVal.VNone))
        y = z3.Const("yc", PyVal)
        f(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(L), j != k), ident(s_nth(L, j)) != ident(x)), patterns=[s_nth(L, j)]))
        f(z3.ForAll([y], z3.Implies(z3.And(s_mem(L, y), ident(y) == ident(x)), y == x), patterns=[s_mem(L, y)]))
        self.key = V.e.const("any identity", S)
        return x

    def stored(self, s, hide, given):
        self.V.ensure("details are hidden as given", hide is given)
        return unpack(self.stored_term(pack(s)), AnyT)

    def stored_term(self, e):
        return uf("stored for", ObjS, PyVal)(PyVal.vo(e))

    def has(self, d):
        i = PyVal.VStr(ident(self.x))
        return z3.And(t_mem(d_dom(d), i), d_get(d, i) == self.stored_term(self.x))

    def only(self, d):
        i = PyVal.VStr(self.key)
        y = z3.Const("yo", PyVal)
        return z3.Implies(t_mem(d_dom(d), i), z3.Not(z3.ForAll([y], z3.Implies(s_mem(self.L, y), ident(y) != self.key), patterns=[s_mem(self.L, y)])))

    def hints(self):
        def hint(c):
            out = []
            if c.seq is None:
                return out
            for l, v, i in c.dicts():
                try:
                    t = v.toterm()
                except (Exception, Unsupported):
                    continue
                w = s_idx(c.seq, self.x)
                out.append((f"{l} stored", z3.Implies(c.k > self.k, self.has(t))))
                out.append((f"{l} stored at", z3.Implies(z3.And(w >= 0, c.k > w), self.has(t))))
                out.append((f"{l} only", self.only(t)))
            for l, v, i in c.lists():
                try:
                    t = v.toterm()
                except (Exception, Unsupported):
                    continue
                out.append((f"{l} kept", z3.Implies(c.k > self.k, s_mem(t, self.x))))
                out.append((f"{l} from", forall_in(t, lambda e: s_mem(self.L, e))))
            return out
        self.V.hint(hint)

    def table(self, path):
        return uf("json_loads", S, PyVal)(PyVal.vs(self.V.fs.get(path)))

    def is_stored(self, path):
        v = self.table(path)
        return self.V.sym(z3.And(PyVal.is_VStr(self.V.fs.get(path)), self.has(PyVal.vd(v))))

    def only_made(self, path):
        return self.V.sym(self.only(PyVal.vd(self.table(path))))


def named_dict(V, d):
    return named(V, d.toterm())


def same_dict(d, t):
    """the same keys with the same values"""
    x = z3.Const("sk", PyVal)
    a, b = d.toterm() if hasattr(d, "toterm") else d, t
    return z3.And(z3.ForAll([x], t_mem(d_dom(a), x) == t_mem(d_dom(b), x), patterns=[t_mem(d_dom(a), x)]),
                  z3.ForAll([x], z3.Implies(t_mem(d_dom(a), x), d_get(a, x) == d_get(b, x)), patterns=[d_get(a, x)]))


def without(t, k):
    return d_del(t, pack(k))
