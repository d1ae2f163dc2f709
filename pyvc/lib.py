"""Run-time hooks of the instrumented code, and the assumed contracts of builtins and the standard library."""
import base64 as _base64
import builtins
import collections
import contextlib
import functools
import inspect as _inspect
import itertools
import types
import enum
import z3
from . import core
from . import core
from .core import *
from .terms import *

native = builtins


# =============================================================================================== string operations
def _isconc(*a):
    return not any(isinstance(x, (Sym, Tracked)) or isinstance(x, tuple) and not _isconc(*x) for x in a)


def contains(s, x):
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    return mkbool(z3.Contains(sterm(s), sterm(x)))


def parts_of(t):
    """flatten a concatenation"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in t.children():
            r.extend(parts_of(c))
        return r
    return [t]


def concat(ts):
    ts = [t for t in ts if not (z3.is_string_value(t) and strval(t) == "")]
    if not ts:
        return z3.StringVal("")
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


def strval(t):
    return t.py_value() if hasattr(t, "py_value") else t.as_string()


nl_lines = uf("nl_lines", S, SeqS)   # the lines (without terminators) of a text whose every line is terminated


def st_split(s, sep=None, maxsplit=-1):
    s, sep = force(s), force(sep)
    if isinstance(sep, SymAny):
        sep = sep.as_kind("str")
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return VList(conc=s.split(sep, maxsplit))
    if sep is not None and maxsplit == 1:
        a, m, b = st_partition(s, sep)
        return VList(conc=[a, b] if m else [s])
    if sep is None or maxsplit != -1:
        raise Unsupported("split with these arguments")
    e = E()
    t = z3.simplify(sterm(s))
    p = sterm(sep)
    if isinstance(sep, str):
        # exact when every symbolic part is known not to contain the separator
        out, cur = [], []
        ok = True
        for x in parts_of(t):
            if z3.is_string_value(x):
                pieces = strval(x).split(sep)
                cur.append(z3.StringVal(pystr_escape(pieces[0])))
                for y in pieces[1:]:
                    out.append(cur)
                    cur = [z3.StringVal(pystr_escape(y))]
            else:
                if len(sep) == 1 and e.prove(z3.Not(z3.Contains(x, p)), quick="light")[0] == "ok":
                    cur.append(x)
                else:
                    ok = False
                    break
        if ok:
            out.append(cur)
            return VList(conc=[mkstr(concat(c)) for c in out])
    r = uf("str_split", S, S, SeqS)(t, p)
    e.assumptions.add("str.split")
    e.fact(s_len(r) >= 1)
    e.fact(z3.Implies(z3.Not(z3.Contains(t, p)), r == s_snoc(s_empty, PyVal.VStr(t))))
    e.fact((s_len(r) == 1) == z3.Not(z3.Contains(t, p)))
    e.fact(z3.And(PyVal.is_VStr(s_nth(r, 0)), z3.PrefixOf(PyVal.vs(s_nth(r, 0)), t)))
    if sep == "\n":
        nl = z3.StringVal(pystr_escape("\n"))
        e.fact(nl_lines(z3.StringVal("")) == s_empty)
        e.fact(z3.Implies(z3.Or(t == z3.StringVal(""), z3.SuffixOf(nl, t)), r == s_snoc(nl_lines(t), PyVal.VStr(z3.StringVal("")))))
    return VList(term=r, et=StrT)


def st_join(sep, it):
    it = force(it)
    l = tolist(it)
    if l.conc is not None:
        xs = [force(x) for x in l.conc]
        for x in xs:
            if not isinstance(x, (str, SymStr, SymAny)):
                raise Typeerr("sequence item: expected str instance")
        if _isconc(sep, *xs):
            return sep.join(xs)
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sterm(sep))
            out.append(sterm(x))
        return mkstr(concat(out))
    return mkstr(join_term(sterm(sep), l.toterm()))


def join_term(sep, seq):
    return uf("str_join", S, SeqS, S)(sep, seq)


def st_strip(kind):
    def f(s, chars=None):
        s, chars = force(s), force(chars)
        if _isconc(s, chars):
            return getattr(s, kind)(chars)
        if chars is not None and not isinstance(chars, str):
            raise Unsupported("strip with a logical argument")
        t = sterm(s)
        r = uf(f"str_{kind}:{chars!r}", S, S)(t)
        e = E()
        e.assumptions.add("str." + kind)
        if kind == "rstrip":
            e.fact(z3.PrefixOf(r, t))
        elif kind == "lstrip":
            e.fact(z3.SuffixOf(r, t))
        else:
            e.fact(z3.Contains(t, r))
        e.fact(z3.Length(r) <= z3.Length(t))
        if chars is None:
            for x in parts_of(z3.simplify(t)):
                if z3.is_string_value(x) and strval(x).strip():
                    e.fact(z3.Contains(r, z3.StringVal(pystr_escape(strval(x).strip()))))
        for c in (chars if chars is not None else " \t\n\r"):
            cv = z3.StringVal(pystr_escape(c))
            if kind in ("strip", "rstrip"):
                e.fact(z3.Not(z3.SuffixOf(cv, r)))
            if kind in ("strip", "lstrip"):
                e.fact(z3.Not(z3.PrefixOf(cv, r)))
        return mkstr(r)
    return f


def st_pred(kind):
    def f(s):
        if isinstance(s, str):
            return getattr(s, kind)()
        t = sterm(s)
        p = uf("str_" + kind, S, B)
        e = E()
        e.assumptions.add("str." + kind)
        e.fact(z3.Not(p(z3.StringVal(""))))
        for c in "\0\n\r\t .,-_/:ab01\"'":
            cv = z3.StringVal(pystr_escape(c))
            v = getattr(c, kind)()
            e.fact(p(cv) == v)
        return mkbool(p(t))
    return f


def st_uf(name, *, natv=None, res=S):
    def f(s, *a):
        a = [force(x) for x in a]
        if _isconc(s, *a):
            return getattr(s, natv or name)(*a)
        ts = [sterm(s)] + [sterm(x) if isinstance(x, (str, SymStr, SymAny)) else iterm(x) for x in a]
        E().assumptions.add("str." + name)
        r = uf("str_" + name, *[t.sort() for t in ts], res)(*ts)
        if res == S:
            return mkstr(r)
        return mknum(r)
    return f


def st_replace(s, a, b):
    s, a, b = force(s), force(a), force(b)
    if _isconc(s, a, b):
        return s.replace(a, b)
    t, x, y = sterm(s), sterm(a), sterm(b)
    r = uf("str_replace", S, S, S, S)(t, x, y)
    E().assumptions.add("str.replace")
    E().fact(z3.Implies(z3.Not(z3.Contains(t, x)), r == t))
    if isinstance(a, str) and isinstance(b, str) and a and a not in b:
        E().fact(z3.Not(z3.Contains(r, x)))
    return mkstr(r)


def st_find(s, x, start=0):
    if _isconc(s, x, start):
        return s.find(x, start)
    return mknum(z3.IndexOf(sterm(s), sterm(x), iterm(start)))


def st_index(s, x):
    r = st_find(s, x)
    if r < 0:
        raise ValueError("substring not found")
    return r


def st_startswith(s, p):
    p = force(p)
    if isinstance(p, tuple):
        for x in p:
            if st_startswith(s, x):
                return True
        return False
    if _isconc(s, p):
        return s.startswith(p)
    return mkbool(z3.PrefixOf(sterm(p), sterm(s)))


def st_endswith(s, p):
    p = force(p)
    if isinstance(p, tuple):
        for x in p:
            if st_endswith(s, x):
                return True
        return False
    if _isconc(s, p):
        return s.endswith(p)
    return mkbool(z3.SuffixOf(sterm(p), sterm(s)))


def st_encode(s, enc="utf-8", errors="strict"):
    if isinstance(s, str):
        return s.encode(enc, errors)
    t = sterm(s)
    enc = enc.lower().replace("-", "")
    r = uf("str_encode:" + enc + ":" + errors, S, S)(t)
    E().assumptions.add("str.encode/bytes.decode are inverse")
    if errors == "strict":
        E().fact(uf("bytes_decode:" + enc + ":" + errors, S, S)(r) == t)
    return SymBytes(r)


def by_decode(b, enc="utf-8", errors="strict"):
    if isinstance(b, bytes):
        return b.decode(enc, errors)
    e = E()
    enc = enc.lower().replace("-", "")
    ok = uf("bytes_decodable:" + enc, S, B)(b.t)
    r = uf("bytes_decode:" + enc + ":" + errors, S, S)(b.t)
    enc_f = uf("str_encode:" + enc + ":" + errors, S, S)
    e.assumptions.add("str.encode/bytes.decode are inverse")
    if errors == "strict" and enc not in ("latin1", "iso88591"):
        # text that was encoded is decodable; arbitrary bytes need not be
        st = z3.simplify(b.t)
        if not (z3.is_app(st) and st.decl().name().startswith("str_encode:" + enc)):
            if not e.branch(ok):
                raise UnicodeDecodeError(enc, b"", 0, 1, "invalid start byte")
    if errors in ("strict", "surrogateescape"):
        e.fact(enc_f(r) == b.t)
    return mkstr(r)


def st_splitlines(s, keepends=False):
    if isinstance(s, str):
        return VList(conc=s.splitlines(keepends))
    return VList(term=uf("str_splitlines:%s" % keepends, S, SeqS)(sterm(s)), et=StrT)


def st_partition(s, sep):
    s, sep = force(s), force(sep)
    if _isconc(s, sep):
        return s.partition(sep)
    i = st_find(s, sep)
    if i < 0:
        return (s, "", "")
    return (getitem(s, slice(None, i)), sep, getitem(s, slice(i + len_(sep), None)))


def st_just(kind):
    def f(s, w, fill=" "):
        if _isconc(s, w, fill):
            return getattr(s, kind)(w, fill)
        return mkstr(uf("str_" + kind, S, I, S, S)(sterm(s), iterm(w), sterm(fill)))
    return f


STR = dict(split=st_split, join=st_join, strip=st_strip("strip"), lstrip=st_strip("lstrip"), rstrip=st_strip("rstrip"),
           startswith=st_startswith, endswith=st_endswith, replace=st_replace, find=st_find, index=st_index,
           encode=st_encode, lower=st_uf("lower"), upper=st_uf("upper"), title=st_uf("title"), casefold=st_uf("casefold"),
           count=st_uf("count", res=I), rfind=st_uf("rfind", res=I), splitlines=st_splitlines, partition=st_partition,
           ljust=st_just("ljust"), rjust=st_just("rjust"), zfill=st_uf("zfill"), capitalize=st_uf("capitalize"),
           removeprefix=lambda s, p: getitem(s, slice(len_(p), None)) if st_startswith(s, p) else s,
           removesuffix=lambda s, p: getitem(s, slice(None, len_(s) - len_(p))) if len_(p) > 0 and st_endswith(s, p) else s)
for _k in ("isdigit", "isspace", "isalpha", "isalnum", "isnumeric", "isdecimal", "isupper", "islower", "isidentifier"):
    STR[_k] = st_pred(_k)
BYT = dict(decode=by_decode, hex=lambda b: b.hex() if isinstance(b, bytes) else mkstr(uf("bytes_hex", S, S)(b.t)))


def strmethod(s, n):
    f = STR.get(n)
    if f is None:
        if hasattr(str, n):
            raise Unsupported("str." + n)
        raise AttributeError(n)
    return functools.partial(f, s)


def bytesmethod(s, n):
    f = BYT.get(n)
    if f is None:
        if hasattr(bytes, n):
            raise Unsupported("bytes." + n)
        raise AttributeError(n)
    return functools.partial(f, s)


# =============================================================================================== conversions
def int_to_str(t):
    return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))


def real_text(t):
    """assumed contract of str(float): a non-empty text without white space that float() reads back as the same number"""
    e = E()
    r = uf("str_of_real", R, S)(t)
    e.assumptions.add("float(str(x)) == x; str(float) contains no white space")
    e.fact(z3.And(uf("float_valid", S, B)(r), uf("float_of_str", S, R)(r) == t, z3.Length(r) > 0))
    for c in "\t\n ":
        e.fact(z3.Not(z3.Contains(r, z3.StringVal(pystr_escape(c)))))
    return mkstr(r)


def str_(v="", *a):
    v = force(v)
    if a:
        return by_decode(v, *a)
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, SymInt):
        return mkstr(int_to_str(v.t))
    if isinstance(v, SymBool):
        return mkstr(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
    if isinstance(v, SymReal):
        return real_text(v.t)
    if isinstance(v, SymEnum):
        return mkstr(z3.Concat(z3.StringVal(v.cls.__name__ + "."), enum_name(v.cls, v.t)))
    if isinstance(v, SymAny):
        t = v.t
        return mkstr(z3.If(PyVal.is_VStr(t), PyVal.vs(t), uf("str_of", PyVal, S)(t)))
    if isinstance(v, SymObj):
        for m in ("__str__", "__repr__"):
            f = class_attr(v.cls, m)
            if f is not None:
                return f(v)
        return mkstr(uf("str_of", PyVal, S)(pack(v)))
    if isinstance(v, (VList, VDict, VSet, SymBytes)) or isinstance(v, tuple) and not _isconc(v):
        return repr_(v)
    if isinstance(v, BaseException):
        if len(v.args) == 1:
            return str_(v.args[0])
        return str(v)
    if core.ENG is not None and E().is_repo_class(type(v)) and not isinstance(v, enum.Enum):
        for m in ("__str__", "__repr__"):
            f = class_attr(type(v), m)
            if f is not None:
                return f(v)
        return mkstr(uf("str_of", PyVal, S)(pack(v)))
    return str(v)


def repr_(v):
    v = force(v)
    if isinstance(v, (VList, VDict)) and v.conc is not None:
        if isinstance(v, VList):
            xs = [repr_(x) for x in v.conc]
            r = "["
            for i, x in enumerate(xs):
                r = r + (", " if i else "") + x
            return r + "]"
        r = "{"
        for i, (k, x) in enumerate(v.conc):
            r = r + (", " if i else "") + repr_(k) + ": " + repr_(x)
        return r + "}"
    if isinstance(v, (Sym, Tracked)) or isinstance(v, tuple) and not _isconc(v):
        return mkstr(uf("repr_of", PyVal, S)(pack(v)))
    if core.ENG is not None and E().is_repo_class(type(v)):
        f = class_attr(type(v), "__repr__")
        if f is not None:
            return f(v)
    return repr(v)


def format_(v, spec=""):
    v, spec = force(v), force(spec)
    if isinstance(spec, str) and spec == "":
        return str_(v)
    if _isconc(v, spec):
        return format(v, spec)
    return mkstr(uf("format_of", PyVal, S, S)(pack(v), sterm(spec)))


def int_(v=0, *a):
    v = force(v)
    if isinstance(v, SymAny):
        v = v.resolve()
    if isinstance(v, SymInt):
        return v
    if isinstance(v, SymBool):
        return mknum(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, SymReal):
        return mknum(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, SymStr):
        e = E()
        e.assumptions.add("int(str)")
        ok = uf("int_valid", S, B)(v.t)
        n = uf("int_of_str", S, I)(v.t)
        # decimal strings
        e.fact(z3.Implies(z3.StrToInt(v.t) >= 0, z3.And(ok, n == z3.StrToInt(v.t))))
        e.fact(z3.Implies(v.t == z3.StringVal(""), z3.Not(ok)))
        st = z3.simplify(v.t)
        for x in int_terms(st):
            e.fact(z3.Implies(v.t == int_to_str(x), z3.And(ok, n == x)))
        if not e.branch(ok):
            raise ValueError("invalid literal for int() with base 10")
        return mknum(n)
    if v is None or isinstance(v, (Tracked, tuple)):
        raise Typeerr("int() argument must be a string, a bytes-like object or a real number")
    return int(v, *a)


def int_terms(t, acc=None, depth=0):
    """integers x such that str.from_int(x) occurs in t"""
    acc = [] if acc is None else acc
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_INT_TO_STR:
            x = t.arg(0)
            acc.append(x)
            acc.append(z3.simplify(-x))
        for c in t.children():
            int_terms(c, acc, depth + 1)
    return acc


def float_(v=0.0):
    v = force(v)
    if isinstance(v, SymAny):
        v = v.resolve()
    if isinstance(v, SymReal):
        return v
    if isinstance(v, SymInt):
        return SymReal(z3.ToReal(v.t))
    if isinstance(v, SymStr):
        e = E()
        e.assumptions.add("float(str)")
        if not e.branch(uf("float_valid", S, B)(v.t)):
            raise ValueError("could not convert string to float")
        return SymReal(uf("float_of_str", S, R)(v.t))
    if v is None or isinstance(v, (Tracked, tuple)):
        raise Typeerr("float() argument")
    return float(v)


def bool_(v=False):
    v = force(v)
    if isinstance(v, SymBool):
        return v
    if isinstance(v, SymAny):
        return mkbool(truthy_term(v.t))
    if isinstance(v, SymStr):
        return mkbool(z3.Length(v.t) > 0)
    return bool(v)


def len_(v):
    v = force(v)
    if isinstance(v, SymAny):
        v = v.resolve()
    if isinstance(v, VList):
        return len(v.conc) if v.conc is not None else mknum(s_len(v.term))
    if isinstance(v, VSet):
        return mknum(t_card(v.term))
    if isinstance(v, VDict):
        return v.size()
    if isinstance(v, DView):
        return v.d.size()
    if isinstance(v, SymStr):
        return mknum(z3.Length(v.t))
    if isinstance(v, SymBytes):
        return mknum(z3.Length(v.t))
    if isinstance(v, SymObj):
        f = class_attr(v.cls, "__len__")
        if f is None:
            raise Unsupported("len of a logical object")
        return f(v)
    if isinstance(v, (SymNum, SymBool)) or v is None:
        raise Typeerr("object has no len()")
    f = class_attr(type(v), "__len__") if core.ENG is not None and E().is_repo_class(type(v)) else None
    if f is not None:
        return f(v)
    return len(v)


# =============================================================================================== type proxies
class TypeProxy:
    def __init__(self, name, nat, call, check):
        self.name, self.nat, self.call, self.check = name, nat, call, check
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __mro_entries__(self, bases):
        return (self.nat,)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "fromkeys":
            return dict_fromkeys
        return lambda o, *a, **k: HOOK.callm(o, n, *a, **k)

    def __or__(self, o):
        return (self, o)

    def __getitem__(self, i):
        return self

    def __repr__(self):
        return f"<class '{self.name}'>"


def _k(test, *cls):
    def f(v):
        v = force(v)
        if isinstance(v, SymAny):
            return mkbool(test(v.t))
        return isinstance(v, cls)
    return f


def mkdict_(o=None, **kw):
    d = VDict()
    if o is not None:
        o = force(o)
        if isinstance(o, VDict):
            d.assign(o)
            if d.conc is not None:
                d.conc = [list(x) for x in d.conc]
            d.default = None
        else:
            if isinstance(o, dict):
                for k, v in o.items():
                    d.setk(k, v)
            else:
                l = tolist(o)
                if l.conc is not None:
                    for kv in l.conc:
                        k, v = HOOK.unpackn(kv, 2)
                        d.setk(k, v)
                else:
                    d = E().prelude("to_dict")(l)
    for k, v in kw.items():
        d.setk(k, v)
    return d


def dict_fromkeys(it, v=None):
    l = tolist(it)
    d = VDict()
    if l.conc is None:
        raise Unsupported("dict.fromkeys of a logical list")
    for x in l.conc:
        d.setk(x, v)
    return d


def list_(o=()):
    l = tolist(o)
    return l.copy()


def set_(o=()):
    s = toset(o)
    return s.copy()


def tuple_(o=()):
    o = force(o)
    if isinstance(o, tuple):
        return o
    l = tolist(o)
    if l.conc is not None:
        return tuple(l.conc)
    r = l.copy()
    r.istuple = True
    return r


def type_(v, *a):
    v = force(v)
    if a:
        return type(v, *a)
    if isinstance(v, SymObj):
        if v.cls is None or isinstance(v.cls, str):
            return SymObj("type", uf("type_of", ObjS, ObjS)(v.t))
        return v.cls
    if isinstance(v, SymAny):
        v = v.resolve()
    for p, ts in ((P_bool, (bool, SymBool)), (P_int, (int, SymInt)), (P_float, (float, SymReal)), (P_str, (str, SymStr)),
                  (P_bytes, (bytes, SymBytes)), (P_list, (VList,)), (P_dict, (VDict,)), (P_set, (VSet,)), (P_tuple, (tuple,))):
        if isinstance(v, ts) and not isinstance(v, enum.Enum):
            return p
    if isinstance(v, SymEnum):
        return v.cls
    return type(v)


P_str = TypeProxy("str", str, str_, _k(PyVal.is_VStr, str, SymStr))
P_int = TypeProxy("int", int, int_, _k(lambda t: z3.Or(PyVal.is_VInt(t), PyVal.is_VBool(t)), int, SymInt, SymBool))
P_float = TypeProxy("float", float, float_, _k(PyVal.is_VReal, float, SymReal))
P_bool = TypeProxy("bool", bool, bool_, _k(PyVal.is_VBool, bool, SymBool))
P_bytes = TypeProxy("bytes", bytes, lambda *a: bytes(*a), _k(PyVal.is_VBytes, bytes, SymBytes))
P_list = TypeProxy("list", list, list_, _k(PyVal.is_VList, VList))
P_set = TypeProxy("set", set, set_, _k(PyVal.is_VSet, VSet))
P_frozenset = TypeProxy("frozenset", frozenset, set_, _k(PyVal.is_VSet, VSet))
P_dict = TypeProxy("dict", dict, mkdict_, _k(PyVal.is_VDict, VDict))
P_tuple = TypeProxy("tuple", tuple, tuple_, _k(lambda t: z3.Or(*[f(t) for f in (
    PyVal.is_VTup0, PyVal.is_VTup1, PyVal.is_VTup2, PyVal.is_VTup3, PyVal.is_VTup4)]), tuple))
P_type = TypeProxy("type", type, type_, lambda v: isinstance(force(v), (type, TypeProxy)))
P_object = object
TYPES = {p.name: p for p in (P_str, P_int, P_float, P_bool, P_bytes, P_list, P_set, P_frozenset, P_dict, P_tuple, P_type)}


def isinstance_(v, c):
    c = force(c)
    v = force(v)
    if isinstance(c, tuple) or isinstance(c, VList):
        r = False
        for x in c:
            q = isinstance_(v, x)
            if q is True:
                return True
            if q is not False:
                r = q if r is False else mkbool(z3.Or(bterm(r), bterm(q)))
        return r
    if isinstance(c, TypeProxy):
        return c.check(v)
    if isinstance(v, SymAny):
        if isinstance(c, type) and issubclass(c, enum.Enum):
            return mkbool(type_fact(v.t, EnumT(c)))
        if E().branch(PyVal.is_VObj(v.t)):
            v = v.as_kind("obj")
        else:
            return False
    if isinstance(v, SymObj):
        if isinstance(v.cls, type) and isinstance(c, type):
            return issubclass(v.cls, c)
        sch = E().schema.get(clsname(v.cls)) or {}
        f = sch.get("*isinstance")
        if f is not None:
            return f(v, c)
        raise Unsupported(f"isinstance of a logical object of {clsname(v.cls)} and {c}")
    if isinstance(v, SymEnum):
        return isinstance(c, type) and issubclass(v.cls, c)
    if isinstance(v, (Sym, Tracked)):
        if isinstance(c, type) and c.__module__ == "collections.abc" or c is collections.abc.Iterable:
            raise Unsupported("isinstance with abstract class")
        return False
    if not isinstance(c, type):
        if isinstance(c, (SymObj,)):
            raise Unsupported("isinstance with a logical class")
        if c is types.FunctionType:
            return isinstance(v, c)
        f = getattr(c, "_vc_check", None)
        if f:
            return f(v)
    return isinstance(v, c)


def issubclass_(a, c):
    if isinstance(c, tuple):
        return any(issubclass_(a, x) for x in c)
    if isinstance(a, TypeProxy):
        return a is c
    if isinstance(c, TypeProxy):
        return isinstance(a, type) and issubclass(a, c.nat)
    return issubclass(a, c)


_NO = object()


def hasattr_(o, n):
    try:
        getattr_(o, n)
        return True
    except AttributeError:
        return False


def getattr_(o, n, *d):
    o, n = force(o), force(n)
    if isinstance(o, SymAny):
        o = o.resolve()
    if not isinstance(n, str):
        sch = None
        if isinstance(o, SymObj):
            sch = (E().schema.get(clsname(o.cls)) or {}).get("*getattr")
        f = sch or getattr(type(o), "_vc_getattr", None)
        if f:
            return f(o, n, *d)
        raise Unsupported("getattr with a logical name")
    if isinstance(o, (str, bytes)) and not isinstance(o, enum.Enum) and n in STR:
        return functools.partial(STR[n], o)
    try:
        return getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


def setattr_(o, n, v):
    o, n = force(o), force(n)
    if not isinstance(n, str):
        f = getattr(type(o), "_vc_setattr", None)
        if isinstance(o, SymObj):
            f = (E().schema.get(clsname(o.cls)) or {}).get("*setattr")
        if f:
            return f(o, n, v)
        raise Unsupported("setattr with a logical name")
    if isinstance(o, SymObj):
        f = (E().schema.get(clsname(o.cls)) or {}).get("*setattr")
        if f:
            return f(o, n, v)
    setattr(o, n, v)


def delattr_(o, n):
    o, n = force(o), force(n)
    if isinstance(o, SymObj):
        f = (E().schema.get(clsname(o.cls)) or {}).get("*delattr")
        if f:
            return f(o, n)
    if not isinstance(n, str) or isinstance(o, SymObj):
        raise Unsupported("delattr with a logical name")
    delattr(o, n)


def callable_(o):
    o = force(o)
    if isinstance(o, SymObj):
        return "__call__" in (E().schema.get(clsname(o.cls)) or {})
    if isinstance(o, TypeProxy):
        return True
    return callable(o) and not isinstance(o, Sym)


# =============================================================================================== iteration
def logical_iter(x):
    """a SymIter, or a native iterable"""
    x = force(x)
    if isinstance(x, SymAny):
        x = x.resolve()
    if isinstance(x, SymIter):
        return x
    if isinstance(x, VDict):
        x = x.keys()
    if isinstance(x, DView):
        r = x.iterspec()
        return r
    if isinstance(x, EagerIter):
        if x.lst.conc is not None:
            return x
        if x.pos:
            raise Unsupported("partially consumed iterator")
        x = x.lst
    if isinstance(x, VSet):
        x = VList(term=t_seq(x.term), et=x.et)
    if isinstance(x, VList):
        if x.conc is not None:
            return x.conc
        from .engine import list_item
        t, et = x.term, x.et
        return SymIter(s_len(t), lambda k: list_item(E(), t, et, k), t, et, src=x)
    if isinstance(x, SymStr):
        t = x.t
        return SymIter(z3.Length(t), lambda k: mkstr(z3.SubString(t, k, 1)), src=x)
    if isinstance(x, (tuple, list, range, str, dict, types.GeneratorType)) or hasattr(type(x), "__next__"):
        return x
    if isinstance(x, SymObj) or (core.ENG is not None and E().is_repo_class(type(x))):
        return tolist(E().prelude("collect")(x)).conc
    if isinstance(x, (SymNum, SymBool)) or x is None:
        raise Typeerr("object is not iterable")
    return x


def enumerate_(x, start=0):
    s = logical_iter(x)
    if isinstance(s, SymIter):
        return SymIter(s.n, lambda k: (mknum(k + iterm(start)), s.item(k)), None, None, src=s.src, base=s.base)
    return zip(range(start, 10 ** 9), s)


def zip_(*xs, strict=False):
    ss = [logical_iter(x) for x in xs]
    if not any(isinstance(s, SymIter) for s in ss):
        return zip(*ss)
    n = None
    its = []
    for s in ss:
        if not isinstance(s, SymIter):
            s = list(s)
            l = VList(conc=s)
            l.logical()
            s = logical_iter(l)
        its.append(s)
        n = s.n if n is None else z3.If(s.n < n, s.n, n)
    return SymIter(n, lambda k: tuple(s.item(k) for s in its), None, None, src=its[0].src, base=its[0].base)


def range_(*a):
    a = [force(x) for x in a]
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with step")
    lo, hi = iterm(lo), iterm(hi)
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return SymIter(n, lambda k: mknum(lo + k), src=None)


def reversed_(x):
    x = force(x)
    l = tolist(x)
    if l.conc is not None:
        return iter(list(reversed(l.conc)))
    return EagerIter(VList(term=s_rev(l.term), et=l.et))


def iter_(x, *a):
    x = force(x)
    if a:
        raise Unsupported("iter with sentinel")
    if isinstance(x, (VList, VSet, VDict, DView)):
        return EagerIter(tolist(x).copy() if isinstance(x, VList) else tolist(x))
    if isinstance(x, SymObj) or core.ENG is not None and E().is_repo_class(type(x)):
        f = class_attr(x.cls if isinstance(x, SymObj) else type(x), "__iter__")
        if f is not None:
            return f(x)
    return iter(x)


def next_(it, *d):
    it = force(it)
    if isinstance(it, EagerIter) and it.lst.conc is None:
        l = it.lst
        if E().branch(s_len(l.term) > iterm(it.pos)):
            i = it.pos
            it.pos = it.pos + 1
            return l.getat(i)
        if d:
            return d[0]
        raise StopIteration()
    try:
        if isinstance(it, SymObj) or core.ENG is not None and E().is_repo_class(type(it)):
            return class_attr(it.cls if isinstance(it, SymObj) else type(it), "__next__")(it)
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise


def sorted_(it, key=None, reverse=False):
    return sorted_list(tolist(it), key, reverse)


def sorted_list(l, key=None, reverse=False):
    if l.conc is not None:
        xs = list(l.conc)
        ks = [key(x) if key else x for x in xs]
        if all(_isconc(k) for k in ks) and not any(isinstance(k, (VList, VDict)) for k in ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
            return VList(conc=[xs[i] for i in order])
        # insertion sort by branching (stable)
        out = []
        for x, k in zip(xs, ks):
            j = len(out)
            while j > 0 and (out[j - 1][0] < k if reverse else k < out[j - 1][0]):
                j -= 1
            out.insert(j, (k, x))
        return VList(conc=[x for _, x in out])
    tag = "" if key is None else ":" + getattr(key, "__qualname__", "key")
    e = E()
    e.assumptions.add("sorted is an order-insensitive permutation")
    r = uf("s_sorted" + tag + (":rev" if reverse else ""), SeqS, SeqS)(l.term)
    y = z3.Const("y!", PyVal)
    e.fact(s_len(r) == s_len(l.term))
    e.fact(z3.ForAll([y], s_mem(r, y) == s_mem(l.term, y), patterns=[s_mem(r, y)]))
    e.fact(z3.Implies(s_uniq(l.term), s_uniq(r)))
    return VList(term=r, et=l.et)


def dict_update(d, o):
    E().prelude("dict_update")(d, o)


def in_loop(l, v):
    return E().prelude("in_loop")(l, v)


def index_loop(l, v):
    return E().prelude("index_loop")(l, v)


def map_(f, *its):
    if len(its) != 1:
        raise Unsupported("map with several iterables")
    s = logical_iter(its[0])
    if isinstance(s, SymIter):
        return EagerIter(E().prelude("map_")(f, its[0]))
    return map(f, s)


def filter_(f, it):
    return EagerIter(E().prelude("filter_")(f, it))


def any_(it):
    return E().prelude("any_")(it)


def all_(it):
    return E().prelude("all_")(it)


def sum_(it, start=0):
    return E().prelude("sum_")(it, start)


def _ident(x):
    return x


def max_(*a, key=None, default=_NO):
    return _extreme(a, key, default, True)


def min_(*a, key=None, default=_NO):
    return _extreme(a, key, default, False)


def _extreme(a, key, default, mx):
    key = key or _ident
    if len(a) == 1:
        l = tolist(a[0])
        if l.conc is None:
            if default is not _NO and not E().branch(s_len(l.term) > 0):
                return default
            return E().prelude("max_" if mx else "min_")(l, key)
        xs = l.conc
    else:
        xs = list(a)
    if not xs:
        if default is not _NO:
            return default
        raise ValueError("arg is an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        if isinstance(key(x), (SymInt,)) or isinstance(key(r), SymInt):
            if key is _ident:
                a_, b_ = iterm(r), iterm(x)
                r = mknum(z3.If(b_ > a_ if mx else b_ < a_, b_, a_))
                continue
        if (key(x) > key(r)) if mx else (key(x) < key(r)):
            r = x
    return r


def abs_(x):
    return abs(force(x))


def round_(x, n=None):
    x = force(x)
    if isinstance(x, SymNum):
        return mknum(uf("round", R, I, R)(z3.ToReal(x.t) if x.t.sort() == I else x.t, iterm(n or 0)))
    return round(x) if n is None else round(x, n)


def hash_(x):
    x = force(x)
    if isinstance(x, SymObj) or core.ENG is not None and E().is_repo_class(type(x)):
        f = class_attr(x.cls if isinstance(x, SymObj) else type(x), "__hash__")
        if f is not None:
            return f(x)
    if isinstance(x, (Sym, tuple)):
        return mknum(uf("hash_of", PyVal, I)(pack(x)))
    if isinstance(x, Tracked):
        raise Typeerr("unhashable type")
    return hash(x)


def id_(x):
    return mknum(uf("id_of", PyVal, I)(pack(force(x))))


def ord_(c):
    if isinstance(force(c), SymStr):
        return mknum(z3.StrToCode(sterm(c)))
    return ord(c)


def chr_(c):
    if isinstance(force(c), SymInt):
        return mkstr(z3.StrFromCode(iterm(c)))
    return chr(c)


def print_(*a, sep=" ", end="\n", file=None, flush=False):
    f = file if file is not None else SYS.stdout
    f = force(f)
    if f is None or f is STDOUT:
        # console output is not observed
        return
    s = ""
    for i, x in enumerate(a):
        s = s + (sep if i else "") + str_(x)
    f.write(s + end)


def input_(*a):
    return E().fresh(StrT, "input")


def builtin_overrides():
    d = dict(TYPES)
    d.update(len=len_, isinstance=isinstance_, issubclass=issubclass_, hasattr=hasattr_, getattr=getattr_, setattr=setattr_, delattr=delattr_,
             callable=callable_, enumerate=enumerate_, zip=zip_, range=range_, reversed=reversed_, iter=iter_, next=next_,
             sorted=sorted_, map=map_, filter=filter_, any=any_, all=all_, sum=sum_, max=max_, min=min_, abs=abs_,
             round=round_, hash=hash_, id=id_, ord=ord_, chr=chr_, print=print_, input=input_, open=open_, repr=repr_,
             format=format_)
    return d


# =============================================================================================== hooks
def bin_(a, b, op):
    pass


def getitem(o, i):
    o = force(o)
    i = force(i)
    if isinstance(o, SymAny):
        o = o.resolve()
    if isinstance(o, VDict):
        return o.getk(i)
    if isinstance(o, VList):
        if isinstance(i, slice):
            return list_slice(o, i)
        return o.getat(i)
    if isinstance(o, (str, SymStr)):
        if isinstance(i, slice):
            return str_slice(o, i)
        if isinstance(o, str) and isinstance(i, int):
            return o[i]
        t, it = sterm(o), iterm(i)
        n = z3.Length(t)
        e = E()
        if isinstance(i, int):
            if i < 0:
                it = n + it
        elif e.branch(it < 0):
            it = n + it
        if not e.branch(z3.And(0 <= it, it < n)):
            raise IndexError("string index out of range")
        return mkstr(z3.SubString(t, it, 1))
    if isinstance(o, tuple):
        if isinstance(i, SymInt):
            for j in range(len(o)):
                if E().branch(i.t == j):
                    return o[j]
            raise IndexError("tuple index out of range")
        return o[i]
    if isinstance(o, SymObj):
        f = class_attr(o.cls, "__getitem__")
        sch = (E().schema.get(clsname(o.cls)) or {}).get("__getitem__")
        if sch:
            return sch(o, i)
        if f is None:
            raise Unsupported("subscript of a logical object")
        return f(o, i)
    if o is None:
        raise Typeerr("'NoneType' object is not subscriptable")
    if isinstance(o, Sym):
        raise Typeerr("object is not subscriptable")
    if isinstance(i, (Sym, Tracked)):
        if isinstance(o, type) and issubclass(o, enum.Enum):
            for m in o:
                if h_truth(h_eq(i, m.name)):
                    return m
            raise KeyError("<logical name>")
        if isinstance(o, (dict, bytes, bytearray)):
            raise Unsupported("subscript of a native container with a logical key")
    return o[i]


def clamp(v, n, default):
    """python slice bound -> term in [0,n] (n a term); None -> default"""
    v = force(v)
    if v is None:
        return default
    e = E()
    t = iterm(v)
    if isinstance(v, int):
        if v >= 0:
            if v == 0:
                return z3.IntVal(0)
            return z3.If(t <= n, t, n) if not e.branch(t <= n) else t
        t = n + t
        return t if e.branch(t >= 0) else z3.IntVal(0)
    if e.branch(t < 0):
        t = n + t
        return t if e.branch(t >= 0) else z3.IntVal(0)
    return t if e.branch(t <= n) else n


def str_slice(o, i):
    if isinstance(o, str) and not any(isinstance(force(x), Sym) for x in (i.start, i.stop, i.step)):
        return o[i]
    if i.step is not None:
        raise Unsupported("slice step")
    t = sterm(o)
    n = z3.Length(t)
    lo = clamp(i.start, n, z3.IntVal(0))
    hi = clamp(i.stop, n, n)
    if not E().branch(lo <= hi):
        return ""
    return mkstr(z3.SubString(t, lo, hi - lo))


def list_slice(o, i):
    if o.conc is not None and not any(isinstance(force(x), Sym) for x in (i.start, i.stop, i.step)):
        return VList(conc=o.conc[i])
    if i.step is not None:
        if i.start is None and i.stop is None and force(i.step) == -1:
            return VList(term=s_rev(o.toterm()), et=o.totype())
        raise Unsupported("slice step")
    t = o.toterm()
    n = s_len(t)
    lo = clamp(i.start, n, z3.IntVal(0))
    hi = clamp(i.stop, n, n)
    et = o.totype()
    if not E().branch(lo <= hi):
        return VList(conc=[])
    a = t if i.stop is None else s_take(t, hi)
    return VList(term=s_drop(a, lo) if i.start is not None else a, et=et)


def setitem(o, i, v):
    o, i = force(o), force(i)
    if isinstance(o, SymAny):
        o = o.resolve()
    if isinstance(o, VDict):
        return o.setk(i, v)
    if isinstance(o, VList):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        return o.setat(i, v)
    o[i] = v


def delitem(o, i):
    o, i = force(o), force(i)
    if isinstance(o, VDict):
        return o.delk(i)
    if isinstance(o, VList):
        if isinstance(i, int) or isinstance(i, SymInt):
            if isinstance(i, SymInt):
                raise Unsupported("del at logical index")
            o.pop(i)
            return
        if isinstance(i, slice) and i.start is None and i.stop is None:
            return o.clear()
        raise Unsupported("del slice")
    del o[i]


class Hook:
    Control = Control
    NOITEM = object()
    STARKEY = object()

    def varargs(self, t):
        if not any(type(x) is StarMark for x in t):
            return t
        if len(t) == 1:
            return t[0]._lst.copy()
        r = VList(conc=[])
        for x in t:
            r.extend(x._lst if type(x) is StarMark else VList(conc=[x]))
        return r

    def kwargs(self, d):
        v = VDict()
        for k, x in d.items():
            v.conc.append([k, x])
        return v

    def unkw(self, v):
        v = force(v)
        if isinstance(v, VDict):
            if v.conc is None:
                raise Unsupported("** of a logical map")
            return {k: x for k, x in v.conc}
        return v

    def eager(self, l):
        return EagerIter(l)

    def nextd(self, v, d=None):
        if v is self.NOITEM:
            if d is None:
                raise StopIteration()
            return d()
        return v

    def loop(self, lid, lineno, it, kind, names):
        from .engine import Loop
        return Loop(E(), lid, lineno, it, kind, names)

    def callm(self, o, name, /, *a, **k):
        o = force(o)
        if isinstance(o, SymAny):
            o = o.resolve()
        if isinstance(o, str) and not isinstance(o, enum.Enum):
            f = STR.get(name)
            if f is not None:
                return f(o, *a, **k)
            if not _isconc(*a):
                raise Unsupported("str." + name)
            return getattr(o, name)(*a, **k)
        if isinstance(o, bytes):
            f = BYT.get(name)
            if f is not None:
                return f(o, *a, **k)
        if o is None:
            raise AttributeError(f"'NoneType' object has no attribute '{name}'")
        return getattr(o, name)(*a, **k)

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, SymOpt):
                    return mkbool(x.isnone)
                if isinstance(x, SymAny):
                    return mkbool(PyVal.is_VNone(x.t))
                if isinstance(x, Poison):
                    x._bad()
                return False
        a, b = force(a), force(b)
        if a is b:
            return True
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return h_eq(a, b)
        if isinstance(a, SymAny) or isinstance(b, SymAny):
            x, y = (a, b) if isinstance(a, SymAny) else (b, a)
            if isinstance(y, (bool, SymBool, enum.Enum, SymEnum, SymObj)) or not isinstance(y, (Sym, Tracked, str, int, tuple, float)):
                return mkbool(pack(x) == pack(y))
            raise Unsupported("identity of values")
        if isinstance(a, (SymEnum, enum.Enum)) and isinstance(b, (SymEnum, enum.Enum)):
            return h_eq(a, b)
        if isinstance(a, SymObj) or isinstance(b, SymObj):
            return h_ident(a, b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("poison")
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
            raise Unsupported("identity of logical values")
        if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
            return False
        return False

    def isnot_(self, a, b):
        return h_not(self.is_(a, b))

    def in_(self, x, c):
        c = force(c)
        if isinstance(c, SymAny):
            c = c.resolve()
        if isinstance(c, (str, SymStr)):
            x = force(x)
            if isinstance(x, SymAny):
                x = x.as_kind("str")
            if not isinstance(x, (str, SymStr)):
                raise Typeerr("'in <string>' requires string as left operand")
            return contains(c, x)
        if isinstance(c, (VList, VSet, VDict, DView)):
            return c.has(x) if not isinstance(c, VDict) else c.has(x)
        if isinstance(c, (tuple, range, list)):
            if isinstance(c, range) and isinstance(force(x), SymInt):
                t = iterm(x)
                if c.step == 1:
                    return mkbool(z3.And(t >= c.start, t < c.stop))
            return VList(conc=list(c)).has(x)
        if isinstance(c, EagerIter):
            return c.lst.has(x)
        if isinstance(c, SymObj) or (core.ENG is not None and E().is_repo_class(type(c))):
            cls = c.cls if isinstance(c, SymObj) else type(c)
            f = class_attr(cls, "__contains__")
            if f is not None:
                return f(c, x)
            if class_attr(cls, "__iter__") is not None:
                return E().prelude("in_loop")(c, x)
            f = class_attr(cls, "__getitem__")
            if f is not None:
                # the legacy protocol: c[0], c[1], ... until IndexError
                return E().prelude("in_getitem")(c, x)
            raise Typeerr("argument is not iterable")
        if c is None or isinstance(c, Sym):
            raise Typeerr("argument is not iterable")
        return x in c

    def notin_(self, x, c):
        return h_not(self.in_(x, c))

    def eq_(self, a, b):
        return h_eq(a, b)

    def ne_(self, a, b):
        a0, b0 = force(a) if not isinstance(a, SymOpt) else a, b
        if isinstance(a0, z3.ExprRef) or isinstance(b0, z3.ExprRef):
            return a0 != b0
        return h_not(h_eq(a, b))

    def not_(self, a):
        if isinstance(a, z3.ExprRef):
            return z3.Not(a)
        return h_not(a)

    def mod(self, a, b):
        a, b = force(a), force(b)
        if isinstance(a, (str, SymStr)):
            if _isconc(a, b) and not isinstance(b, Tracked):
                return a % b
            return mkstr(uf("str_mod", S, PyVal, S)(sterm(a), pack(b)))
        return a % b

    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)

    def slice(self, a, b, c):
        return slice(a, b, c)

    def mklist(self, l):
        return VList(conc=l)

    def starlist(self, *parts):
        r = VList(conc=[])
        for p in parts:
            r.extend(p if isinstance(p, VList) else VList(conc=list(p)))
        return r

    def star(self, v):
        v = force(v)
        if isinstance(v, (tuple, list)):
            return v
        l = tolist(v)
        if l.conc is None:
            return (StarMark(l),)
        return l.conc

    def mkset(self, l):
        s = VSet()
        for x in l:
            s.et = join(s.et, typeof(x))
            s.term = t_add(s.term, pack(x))
        return s

    def mkdict(self, items):
        d = VDict()
        for k, v in items:
            if k is self.STARKEY:
                d.update(v)
            else:
                d.setk(k, v)
        return d

    def fstr(self, parts):
        out = ""
        for p in parts:
            if isinstance(p, str):
                x = p
            else:
                v, conv, spec = p
                if conv == 114:
                    v = repr_(v)
                elif conv == 115:
                    v = str_(v)
                x = format_(v, spec)
            out = x if out == "" and isinstance(out, str) else out + x
        return out

    def unpackn(self, v, n):
        v = force(v)
        if isinstance(v, tuple):
            if len(v) != n:
                raise ValueError("unpack: wrong number of values")
            return v
        if isinstance(v, SymAny):
            v = v.resolve()
        l = tolist(v)
        if l.conc is not None:
            if len(l.conc) != n:
                raise ValueError("unpack: wrong number of values")
            return tuple(l.conc)
        if not E().branch(s_len(l.term) == n):
            raise ValueError("unpack: wrong number of values")
        return tuple(l.getat(i) for i in range(n))

    def caught(self, ex):
        if isinstance(ex, (TypeError, NameError, z3.Z3Exception, RecursionError, NotImplementedError)) and not getattr(ex, "_vc_modelled", False):
            if not explicit_raise(ex):
                if __import__("os").environ.get("VC_TB"):
                    __import__("traceback").print_exc()
                raise Unsupported(f"{type(ex).__name__} in the verifier or the code: {ex}")


def explicit_raise(ex):
    """was the exception raised by a raise statement of the code under verification?"""
    tb = ex.__traceback__
    if tb is None:
        return True
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame
    if "__h__" not in f.f_globals:
        return False
    import linecache
    line = linecache.getline(f.f_code.co_filename, tb.tb_lineno).strip()
    return "raise" in line


HOOK = Hook()


# =============================================================================================== ghost file system
class FS:
    """path -> VNone (absent) | VBool(true) directory | VStr text | VBytes | VTup1(pickled object)"""
    _vc_roots = lambda self: [self.cell]

    def __init__(self, term=None):
        self.cell = ArrCell(term if term is not None else z3.Const("fs0", z3.ArraySort(S, PyVal)), "fs")
        self.hooks = []

    def get(self, p):
        return z3.simplify(z3.Select(self.cell.term, sterm(p)))

    def set(self, p, v):
        if E().dead:
            raise PathEnd()
        for h in self.hooks:
            h("write", p)
        self.cell.term = z3.Store(self.cell.term, sterm(p), v)

    def map(self, f):
        """replace the whole content: new[q] = f(q, old)"""
        if E().dead:
            raise PathEnd()
        q = z3.Const("q!", S)
        old = self.cell.term
        self.cell.term = z3.Lambda([q], f(q, old))

    def exists(self, p):
        return mkbool(z3.Not(PyVal.is_VNone(self.get(p))))

    def isdir(self, p):
        t = self.get(p)
        return mkbool(PyVal.is_VBool(t))

    def isfile(self, p):
        t = self.get(p)
        return mkbool(z3.And(z3.Not(PyVal.is_VNone(t)), z3.Not(PyVal.is_VBool(t))))


def under(d, q):
    return z3.PrefixOf(z3.Concat(d, z3.StringVal("/")), q)


lines_f = uf("file_lines", S, SeqS)


def lines_of(content):
    """the lines (with their terminators) of a text"""
    e = E()
    e.assumptions.add("file line iteration splits the text after each newline")
    t = sterm(content)
    e.fact(lines_f(z3.StringVal("")) == s_empty)
    L = lines_f(t)
    return L


def line_fact(L, k):
    """assumed contract of line iteration at index k"""
    e = E()
    el = s_nth(L, k)
    nl = z3.StringVal(pystr_escape("\n"))
    v = PyVal.vs(el)
    e.fact(PyVal.is_VStr(el))
    e.fact(z3.Length(v) > 0)
    e.fact(z3.Not(z3.Contains(z3.SubString(v, 0, z3.Length(v) - 1), nl)))
    e.fact(z3.Or(k >= s_len(L) - 1, z3.SuffixOf(nl, v)))


class File:
    _vc_inst = True

    def __init__(self, path, mode, content, fs):
        self.path, self.mode, self.content, self.fs_ = path, mode, content, fs
        self.ln = 0
        self.closed = False
        self.out = None
        E().V.open_files.append(self)

    def _alive(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        E().live()
        self._alive()
        s = force(s)
        if self.mode[0] not in "wa" and "+" not in self.mode:
            raise OSError("not writable")
        if isinstance(s, SymAny):
            s = s.as_kind("bytes" if "b" in self.mode else "str")
        if isinstance(s, Pickled) and self.mode == "wb":
            # only as the whole content
            if not E().branch(self.fs_.get(self.path) == PyVal.VBytes(z3.StringVal(""))):
                raise Unsupported("pickled bytes behind other content")
            return pickle_dump(s.v, self)
        if "b" in self.mode:
            if not isinstance(s, (bytes, SymBytes)):
                raise Typeerr("a bytes-like object is required")
            old = PyVal.vbs(self.fs_.get(self.path))
            self.fs_.set(self.path, PyVal.VBytes(z3.Concat(old, PyVal.vbs(pack(s)))))
            return len_(s)
        if not isinstance(s, (str, SymStr)):
            raise Typeerr("write() argument must be str")
        old = z3.simplify(PyVal.vs(self.fs_.get(self.path)))
        st = sterm(s)
        new = concat([old, st])
        e = E()
        nl = z3.StringVal(pystr_escape("\n"))
        if isinstance(s, SymStr) or isinstance(s, str) and s.endswith("\n") and s.count("\n") == 1:
            ended = z3.Or(old == z3.StringVal(""), z3.SuffixOf(nl, old))
            ps = parts_of(st)
            if not (ps and z3.is_string_value(ps[-1]) and strval(ps[-1]).endswith("\n")):
                ps = parts_of(z3.simplify(st))
            conc = "".join(strval(x) for x in ps if z3.is_string_value(x))
            if ps and z3.is_string_value(ps[-1]) and strval(ps[-1]).endswith("\n"):
                if conc.count("\n") == 1:
                    cond = z3.And(ended, *[z3.Not(z3.Contains(x, nl)) for x in ps if not z3.is_string_value(x)])
                    last = strval(ps[-1])[:-1]
                    body = concat(ps[:-1] + ([z3.StringVal(pystr_escape(last))] if last else []))
                    e.fact(z3.Implies(cond, z3.And(lines_f(new) == s_snoc(lines_f(old), PyVal.VStr(st)),
                                                   nl_lines(new) == s_snoc(nl_lines(old), PyVal.VStr(body)))))
            else:
                cond = z3.And(ended, z3.SuffixOf(nl, st), z3.Not(z3.Contains(z3.SubString(st, 0, z3.Length(st) - 1), nl)))
                e.fact(z3.Implies(cond, lines_f(new) == s_snoc(lines_f(old), PyVal.VStr(st))))
            e.fact(nl_lines(z3.StringVal("")) == s_empty)
        e.fact(lines_f(z3.StringVal("")) == s_empty)
        self.fs_.set(self.path, PyVal.VStr(new))
        return len_(s)

    def writelines(self, it):
        l = tolist(it)
        if l.conc is None:
            raise Unsupported("writelines")
        for x in l.conc:
            self.write(x)

    def _rd(self):
        self._alive()
        if self.mode[0] != "r" and "+" not in self.mode:
            raise OSError("not readable")

    def read(self, *a):
        self._rd()
        if a:
            raise Unsupported("read(n)")
        if not (isinstance(self.ln, int) and self.ln == 0):
            raise Unsupported("read after readline")
        self.ln = 10 ** 9
        if isinstance(self.content, SymBytes):
            r = ReadBytes(self.content.t)
            r.file = self
            return r
        return self.content

    def readline(self):
        self._rd()
        L = lines_of(self.content)
        k = iterm(self.ln)
        if E().branch(k < s_len(L)):
            E().fact(k >= 0)
            line_fact(L, k)
            self.ln = self.ln + 1
            return mkstr(PyVal.vs(s_nth(L, k)))
        return ""

    def readlines(self):
        self._rd()
        if not (isinstance(self.ln, int) and self.ln == 0):
            raise Unsupported("readlines after readline")
        if isinstance(self.content, str):
            return VList(conc=self.content.splitlines(True))
        return VList(term=lines_of(self.content), et=StrT)

    def __iter__(self):
        self._rd()
        if isinstance(self.content, str):
            return iter(self.content.splitlines(True))
        if not (isinstance(self.ln, int) and self.ln == 0):
            raise Unsupported("iteration after readline")
        L = lines_of(self.content)

        def item(k):
            line_fact(L, k)
            return mkstr(PyVal.vs(s_nth(L, k)))
        return SymIter(s_len(L), item, L, StrT, src=None, base=L)

    def __next__(self):
        r = self.readline()
        if h_eq(r, ""):
            raise StopIteration()
        return r

    def seek(self, p, *a):
        if p == 0:
            self.ln = 0
            return
        raise Unsupported("seek")

    def flush(self):
        pass

    def fileno(self):
        return 3

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def open_(path, mode="r", *a, **k):
    e = E()
    e.live()
    path = force(path)
    if isinstance(path, SymAny):
        path = path.as_kind("str")
    if not isinstance(path, (str, SymStr)):
        raise Typeerr("expected str, bytes or os.PathLike object")
    fs = e.V.fs
    t = fs.get(path)
    e.assumptions.add("file system (open/read/write/exists/remove/rename/makedirs/rmtree/listdir) as a map from paths; no I/O errors, "
                      "no concurrent modification, writes visible at once")
    m = mode[0]
    if e.V.io_ok:
        e.assumptions.add("paths opened as files are not directories")
        e.assume(z3.Not(PyVal.is_VBool(t)))
    if m in "wax":
        if e.branch(PyVal.is_VBool(t)):
            raise IsADirectoryError("is a directory")
        empty = PyVal.VBytes(z3.StringVal("")) if "b" in mode else PyVal.VStr(z3.StringVal(""))
        if m == "w":
            fs.set(path, empty)
        elif m == "a":
            if not e.branch((PyVal.is_VBytes if "b" in mode else PyVal.is_VStr)(t)):
                e.assume(PyVal.is_VNone(t))
                fs.set(path, empty)
        else:
            raise Unsupported("mode x")
        return File(path, mode, None, fs)
    if e.branch(PyVal.is_VNone(t)):
        raise FileNotFoundError("[Errno 2] No such file or directory")
    if e.branch(PyVal.is_VBool(t)):
        raise IsADirectoryError("is a directory")
    if "b" in mode:
        return File(path, mode, SymBytes(PyVal.vbs(t)), fs)
    # a text file holds text
    e.fact(PyVal.is_VStr(t))
    return File(path, mode, mkstr(z3.simplify(PyVal.vs(t))), fs)


# =============================================================================================== stub modules
class StubMod:
    _vc_stubmod = True

    def __init__(self, name, **d):
        self.__dict__["__name__"] = name
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(self.__dict__["__name__"] + "." + n)


class Opaque:
    """a library name without an assumed contract"""
    _vc_stubmod = True

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(self._n + "." + n)

    def __mro_entries__(self, bases):
        return (OpaqueBase,)


class OpaqueBase:
    _vc_inst = True


class State:
    _vc_inst = True


SYS = State()
STDOUT = StubMod("stdout", write=lambda s: None, flush=lambda: None, isatty=lambda: False)
STDERR = StubMod("stderr0", write=lambda s: None, flush=lambda: None, isatty=lambda: False)


PATCHED = []


def reset_state():
    while PATCHED:
        o, n, v = PATCHED.pop()
        if v is PATCHED:
            if n in o.__dict__:
                delattr(o, n)
        else:
            setattr(o, n, v)
    SYS.__dict__.clear()
    SYS.stdout = STDOUT
    SYS.stderr = STDERR
    LOGROOT.__dict__.clear()
    LOGROOT.handlers = VList(conc=[])
    LOGROOT.level = 30


def stub_states():
    return []


class SysMod(StubMod):
    def __getattr__(self, n):
        if n in SYS.__dict__:
            return SYS.__dict__[n]
        return super().__getattr__(n)

    def __setattr__(self, n, v):
        if core.ENG is not None:
            E().live()
        setattr(SYS, n, v)


class OsMod(StubMod):
    @property
    def environ(self):
        return E().V.environ


def os_join(a, *bs):
    a = force(a)
    for b in bs:
        b = force(b)
        if isinstance(a, SymAny):
            a = a.as_kind("str")
        if isinstance(b, SymAny):
            b = b.as_kind("str")
        for x in (a, b):
            if not isinstance(x, (str, SymStr)):
                raise Typeerr("expected str, bytes or os.PathLike object")
        if st_startswith(b, "/"):
            a = b
        elif h_eq(a, "") or st_endswith(a, "/"):
            a = a + b
        else:
            a = a + "/" + b
    return a


def os_exists(p):
    if not isinstance(force(p), (str, SymStr, SymAny)):
        raise Typeerr("stat: path should be string")
    return E().V.fs.exists(p)


def os_remove(p):
    fs = E().V.fs
    if not fs.exists(p):
        raise FileNotFoundError("remove")
    if fs.isdir(p):
        raise IsADirectoryError("remove")
    for h in fs.hooks:
        h("remove", p)
    fs.set(p, PyVal.VNone)


def os_makedirs(p, mode=0o777, exist_ok=False):
    fs = E().V.fs
    if fs.exists(p):
        if not force(exist_ok):
            raise FileExistsError("makedirs")
        return
    fs.set(p, PyVal.VBool(z3.BoolVal(True)))


def os_rename(a, b):
    fs = E().V.fs
    if not fs.exists(a):
        raise FileNotFoundError("rename")
    at, bt = sterm(a), sterm(b)
    for h in fs.hooks:
        h("remove", a)
        h("write", b)
    if fs.isdir(a):
        if fs.exists(b):
            # renaming a directory over an existing one works only if that is empty: not modelled
            raise OSError("rename: directory not empty")

        def f(q, old):
            return z3.If(q == bt, z3.Select(old, at),
                         z3.If(under(bt, q), z3.Select(old, z3.Concat(at, z3.SubString(q, z3.Length(bt), z3.Length(q) - z3.Length(bt)))),
                               z3.If(z3.Or(q == at, under(at, q)), PyVal.VNone, z3.Select(old, q))))
        fs.map(f)
        return
    v = fs.get(a)
    fs.set(a, PyVal.VNone)
    fs.set(b, v)


def sh_rmtree(p, ignore_errors=False):
    fs = E().V.fs
    if not fs.isdir(p):
        if ignore_errors:
            return
        raise FileNotFoundError("rmtree")
    pt = sterm(p)
    for h in fs.hooks:
        h("rmtree", p)
    fs.map(lambda q, old: z3.If(z3.Or(q == pt, under(pt, q)), PyVal.VNone, z3.Select(old, q)))


def snapshot_term(v):
    """the current value of a (nested) container: later changes of it are allowed"""
    saved = []

    def walk(x):
        if isinstance(x, (VList, VDict, VSet)):
            saved.append((x, x.frozen))
            for y in getattr(x, "conc", None) or ():
                walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk(v)
    p = pack(v)
    for x, f in saved:
        x.frozen = f
    return p


def json_dumps(v, **k):
    e = E()
    e.assumptions.add("json: loads(dumps(v)) == v")
    p = snapshot_term(v)
    r = uf("json_dumps:" + ",".join(f"{a}={b!r}" for a, b in sorted(k.items())), PyVal, S)(p)
    e.fact(uf("json_loads", S, PyVal)(r) == p)
    return mkstr(r)


def json_loads(s):
    e = E()
    e.assumptions.add("json: loads(dumps(v)) == v")
    return unpack(z3.simplify(uf("json_loads", S, PyVal)(sterm(s))), AnyT)


def sha1(b=b""):
    ts = [PyVal.vbs(pack(force(b)))]
    E().assumptions.add("sha1 as an unknown function (collision freedom only where stated)")
    st = StubMod("hash")
    st.update = lambda b: ts.append(PyVal.vbs(pack(force(b))))
    st.hexdigest = lambda: mkstr(uf("sha1_hex", S, S)(concat([z3.simplify(t) for t in ts])))
    return st


def pickle_dump(v, f, *a):
    f.fs_.set(f.path, PyVal.VTup1(pack(v)))
    E().V.pickle_types[f.path if isinstance(f.path, str) else None] = typeof(v)
    E().assumptions.add("pickle: load returns an equal copy of what was dumped")


class Pickled:
    """what pickle.dumps returns; it can be written to an empty file, and loaded"""

    def __init__(self, v):
        self.v = v


class ReadBytes(SymBytes):
    """the content of a file, read as bytes"""


def pickle_loads(b):
    if isinstance(b, Pickled):
        return b.v
    if isinstance(b, ReadBytes):
        return pickle_load(b.file)
    raise Unsupported("pickle.loads of these bytes")


def pickle_load(f):
    t = f.fs_.get(f.path)
    return unpack(z3.simplify(PyVal.t1a(t)), AnyT)


def copy_copy(v):
    v = force(v)
    if isinstance(v, (VList, VSet, VDict)):
        return v.copy()
    if isinstance(v, (Sym, tuple, str, int, float, bool, type(None), enum.Enum)) or callable(v):
        return v
    o = object.__new__(type(v))
    o.__dict__.update(v.__dict__)
    return o


def copy_deepcopy(v, memo=None):
    v = force(v)
    if isinstance(v, VList) and v.conc is not None:
        return VList(conc=[copy_deepcopy(x) for x in v.conc])
    if isinstance(v, VDict) and v.conc is not None:
        r = v.copy()
        r.conc = [[k, copy_deepcopy(x)] for k, x in v.conc]
        return r
    if isinstance(v, (VList, VSet, VDict)):
        return v.copy()
    if isinstance(v, SymObj):
        raise Unsupported("deepcopy of a logical object")
    if core.ENG is not None and E().is_repo_class(type(v)) and not isinstance(v, enum.Enum):
        o = object.__new__(type(v))
        o.__dict__.update({k: copy_deepcopy(x) for k, x in v.__dict__.items()})
        return o
    return v


class Lock:
    _vc_inst = True

    def __init__(self):
        self.depth = 0

    def acquire(self, *a, **k):
        self.depth = self.depth + 1
        return True

    def release(self):
        self.depth = self.depth - 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class LogRoot:
    _vc_inst = True

    def addHandler(self, h):
        hs = self.handlers
        if not hs.has(h):
            hs.append(h)

    def removeHandler(self, h):
        hs = self.handlers
        if hs.has(h):
            hs.remove(h)

    def setLevel(self, l):
        self.level = l


for _n in ("debug", "info", "warning", "error", "exception", "critical", "log"):
    setattr(LogRoot, _n, lambda self, *a, **k: None)
LOGROOT = LogRoot()


class StreamHandler:
    _vc_inst = True

    def __init__(self, stream=None):
        self.stream = stream
        self.closed = False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def setLevel(self, l):
        self.level = l

    def setFormatter(self, f):
        pass


def get_logger(name=None):
    if name is None or name == "root":
        return LOGROOT
    return StubMod("logger", **{n: (lambda *a, **k: None) for n in ("debug", "info", "warning", "error", "exception", "critical")})


def time_time():
    e = E()
    return e.fresh(RealT, "time")


def run_coro(c):
    """drives a coroutine whose awaits are all on coroutines"""
    c = force(c)
    try:
        c.send(None)
    except StopIteration as s:
        return s.value
    raise Unsupported("coroutine suspended")


def iscoroutinefunction(f):
    f = force(f)
    if isinstance(f, SymObj):
        s = (E().schema.get(clsname(f.cls)) or {}).get("*iscoro")
        if s is not None:
            return s(f)
        return mkbool(uf("is_coro", ObjS, B)(f.t))
    return _inspect.iscoroutinefunction(f)


def signature(f):
    f = force(f)
    if isinstance(f, SymObj):
        raise Unsupported("signature of a logical function")
    s = _inspect.signature(f)
    ps = VDict()
    for k, v in s.parameters.items():
        ps.setk(k, v)
    return StubMod("signature", parameters=ps)


class PathMod(StubMod):
    pass


def os_split(p):
    p = force(p)
    if isinstance(p, str):
        import os
        return os.path.split(p)
    e = E()
    e.assumptions.add("os.path.split")
    t = sterm(p)
    h, n = uf("path_head", S, S)(t), uf("path_tail", S, S)(t)
    e.fact(z3.Not(z3.Contains(n, z3.StringVal("/"))))
    e.fact(z3.SuffixOf(n, t))
    return (mkstr(h), mkstr(n))


def os_splitext(p):
    if isinstance(p, str):
        import os
        return os.path.splitext(p)
    t = sterm(p)
    a, b = uf("path_root", S, S)(t), uf("path_ext", S, S)(t)
    E().fact(z3.Concat(a, b) == t)
    return (mkstr(a), mkstr(b))


def os_listdir(p="."):
    e = E()
    fs = e.V.fs
    if not fs.isdir(p):
        raise FileNotFoundError("listdir")
    r = uf("fs_listdir", z3.ArraySort(S, PyVal), S, SeqS)(fs.cell.term, sterm(p))
    e.fact(s_uniq(r))
    return VList(term=r, et=StrT)


def os_expanduser(p):
    if isinstance(p, str) and p.startswith("~"):
        return mkstr(z3.Concat(z3.Const("HOME", S), z3.StringVal(p[1:])))
    if isinstance(p, str):
        return p
    return mkstr(uf("expanduser", S, S)(sterm(p)))


def os_abspath(p):
    return mkstr(uf("abspath", S, S)(sterm(p)))


def os_dirname(p):
    return os_split(p)[0]


def os_system(*a):
    e = E()
    if e.V.on_system is not None:
        return e.V.on_system(*a)
    e.assumptions.add("os.system has no effect on the verified state")
    return e.fresh(IntT, "system")


def mk_modules():
    M = {}
    p = PathMod("os.path", join=os_join, exists=os_exists, isdir=lambda q: E().V.fs.isdir(q), isfile=lambda q: E().V.fs.isfile(q),
                split=os_split, splitext=os_splitext, basename=lambda q: os_split(q)[1], dirname=os_dirname, abspath=os_abspath,
                expanduser=os_expanduser, curdir=".", sep="/", pardir="..", normpath=st_uf("normpath"), isabs=lambda q: st_startswith(q, "/"),
                relpath=lambda a, b=".": mkstr(uf("relpath", S, S, S)(sterm(a), sterm(b))))
    M["os.path"] = p
    M["os"] = OsMod("os", path=p, remove=os_remove, unlink=os_remove, makedirs=os_makedirs, mkdir=lambda q, *a: os_makedirs(q), rename=os_rename,
                    replace=os_rename, listdir=os_listdir, system=os_system, cpu_count=lambda: E().fresh(IntT, "cpus"), sep="/", linesep="\n",
                    getcwd=lambda: E().fresh(StrT, "cwd"), getpid=lambda: E().fresh(IntT, "pid"), PathLike=object,
                    getenv=lambda n, d=None: E().V.environ.get(n, d))
    M["sys"] = SysMod("sys", maxsize=2 ** 63 - 1, version_info=__import__("sys").version_info, argv=VList(conc=["booktest"]),
                      path=VList(conc=[]), exit=sys_exit)
    M["json"] = StubMod("json", dumps=json_dumps, loads=json_loads, dump=lambda v, f, **k: f.write(json_dumps(v, **k)),
                        load=lambda f: json_loads(f.read()), JSONDecodeError=__import__("json").JSONDecodeError)
    M["hashlib"] = StubMod("hashlib", sha1=sha1, sha256=sha1, md5=sha1)
    M["pickle"] = StubMod("pickle", dump=pickle_dump, load=pickle_load, dumps=lambda v, *a: Pickled(v), loads=pickle_loads)
    M["copy"] = StubMod("copy", copy=copy_copy, deepcopy=copy_deepcopy)
    M["shutil"] = StubMod("shutil", rmtree=sh_rmtree, move=os_rename)
    M["time"] = StubMod("time", time=time_time, sleep=lambda s: None, monotonic=time_time, perf_counter=time_time)
    M["threading"] = StubMod("threading", Lock=Lock, RLock=Lock)
    M["logging"] = StubMod("logging", getLogger=get_logger, StreamHandler=StreamHandler, INFO=20, DEBUG=10, WARNING=30, ERROR=40,
                           Formatter=lambda *a, **k: None, root=LOGROOT, exception=lambda *a, **k: None, info=lambda *a, **k: None,
                           error=lambda *a, **k: None, warning=lambda *a, **k: None, basicConfig=lambda *a, **k: None)
    M["inspect"] = StubMod("inspect", iscoroutinefunction=iscoroutinefunction, signature=signature, Parameter=_inspect.Parameter,
                           isclass=lambda o: isinstance(force(o), type), isfunction=lambda o: isinstance(force(o), types.FunctionType),
                           iscoroutine=lambda o: _inspect.iscoroutine(force(o)), isawaitable=lambda o: _inspect.isawaitable(force(o)),
                           isgeneratorfunction=_inspect.isgeneratorfunction)
    M["asyncio"] = StubMod("asyncio", run=run_coro, iscoroutinefunction=iscoroutinefunction)
    M["traceback"] = StubMod("traceback", print_exc=lambda *a, **k: None, format_exc=lambda *a: "traceback")
    M["base64"] = StubMod("base64", b64encode=b64encode, b64decode=b64decode, encode=None)
    M["collections"] = StubMod("collections", OrderedDict=ordered_dict, defaultdict=default_dict, namedtuple=collections.namedtuple,
                               deque=list_)
    M["functools"] = StubMod("functools", wraps=wraps, partial=functools.partial, reduce=functools.reduce, lru_cache=functools.lru_cache,
                             cache=functools.cache)
    M["contextlib"] = contextlib
    M["enum"] = enum
    M["types"] = StubMod("types", FunctionType=types.FunctionType, MethodType=types.MethodType, ModuleType=types.ModuleType,
                         CoroutineType=types.CoroutineType)
    M["typing"] = __import__("typing")
    M["abc"] = __import__("abc")
    M["dataclasses"] = __import__("dataclasses")
    M["itertools"] = StubMod("itertools", chain=lambda *a: iter([y for x in a for y in tolist(x).conc]), islice=None)
    M["requests"] = StubMod("requests")
    M["requests.adapters"] = StubMod("requests.adapters", HTTPAdapter=OpaqueBase)
    M["requests"].adapters = M["requests.adapters"]
    M["unittest"] = StubMod("unittest")
    M["unittest.mock"] = StubMod("unittest.mock")
    M["unittest"].mock = M["unittest.mock"]
    for n in ("six", "httpx", "httpx._content", "argparse", "argcomplete", "multiprocessing", "importlib", "coverage", "pandas", "socket",
              "ctypes", "io", "re", "tempfile", "pathlib", "signal", "queue", "concurrent", "concurrent.futures", "warnings", "difflib",
              "random", "datetime", "string", "subprocess", "platform", "errno", "weakref", "textwrap", "operator", "atexit", "heapq", "math",
              "bisect"):
        M[n] = StubMod(n)
    M["httpx"]._content = M["httpx._content"]
    return M


def wraps(f, *a, **k):
    try:
        return functools.wraps(f)
    except Unsupported:
        return lambda g: g


def sys_exit(code=None):
    ex = SystemExit(code)
    raise ex


def b64encode(b):
    if isinstance(b, bytes):
        return _base64.b64encode(b)
    r = uf("b64", S, S)(b.t)
    E().assumptions.add("base64: b64decode(b64encode(x)) == x")
    E().fact(uf("b64dec", S, S)(r) == b.t)
    E().fact(uf("bytes_decodable:ascii", S, B)(r))
    E().fact(uf("bytes_decodable:utf8", S, B)(r))
    return SymBytes(r)


def b64decode(b):
    b = force(b)
    if isinstance(b, SymAny):
        b = b.resolve()
    if isinstance(b, (SymStr, str)):
        b = st_encode(b, "ascii")
    if isinstance(b, bytes):
        return _base64.b64decode(b)
    r = uf("b64dec", S, S)(b.t)
    return SymBytes(r)


def ordered_dict(o=None, **k):
    d = mkdict_(o, **k)
    d.ordered = True
    return d


def default_dict(f=None, *a):
    d = mkdict_(*a)
    d.default = f
    return d


_mods = None


def external(name):
    global _mods
    if _mods is None:
        _mods = mk_modules()
        reset_state()
    m = _mods.get(name)
    if m is None:
        top = name.split(".")[0]
        _mods[name] = m = StubMod(name)
    return m


# =============================================================================================== cvc5
def cvc5_check(fs, ms):
    import cvc5
    s = z3.Solver()
    s.add(fs)
    txt = s.to_smt2()
    solver = cvc5.Solver()
    solver.setOption("tlimit-per", str(ms))
    solver.setOption("strings-exp", "true")
    solver.setOption("full-saturate-quant", "true")
    p = cvc5.InputParser(solver)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
    sm = p.getSymbolManager()
    r = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        out = c.invoke(solver, sm)
        if "check-sat" in str(c):
            r = str(out).strip()
    return r


# =============================================================================================== contract interface
class Res:
    """outcome of a call: kind 'ok' (value) or 'exc' (exception)"""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value
        self.ok = kind == "ok"


class Environ(VDict):
    """os.environ: values are strings"""

    def setk(self, k, v):
        k, v = force(k), force(v)
        if isinstance(k, SymAny):
            k = k.resolve()
        if isinstance(v, SymAny):
            v = v.resolve()
        if kind(k) != "str" or kind(v) != "str":
            raise Typeerr("str expected")
        VDict.setk(self, k, v)


class View:
    def __init__(self, eng):
        self.e = eng
        self.prog = eng.prog
        self.fs = None
        self.open_files = []
        self.pickle_types = {}
        self.measure_hints = []
        self.on_system = None
        self.environ_ = None
        self.io_ok = False
        self.state = {}
        reset_state()
        eng.ghosts.append(SYS)
        eng.ghosts.append(LOGROOT)
        self.fs = FS()
        eng.ghosts.append(self.fs.cell)

    @property
    def environ(self):
        if self.environ_ is None:
            self.environ_ = Environ(term=z3.Const("environ0", DictS), kt=StrT, vt=StrT)
            self.e.ghosts.append(self.environ_)
        return self.environ_

    # values
    def str(self, label): return self.e.fresh(StrT, label)
    def path(self, label):
        """a directory name: not empty and without a trailing slash"""
        s = self.str(label)
        self.e.assume(z3.And(z3.Length(s.t) > 0, z3.Not(z3.SuffixOf(z3.StringVal("/"), s.t))))
        self.e.assumptions.add("directory arguments are non-empty and have no trailing slash")
        return s

    def int(self, label): return self.e.fresh(IntT, label)
    def bool(self, label): return self.e.fresh(BoolT, label)
    def real(self, label): return self.e.fresh(RealT, label)
    def bytes(self, label): return self.e.fresh(BytesT, label)
    def any(self, label): return self.e.fresh(AnyT, label)
    def enum(self, c, label): return self.e.fresh(EnumT(c), label)
    def list(self, t, label): return self.e.fresh(ListT(t), label)
    def set(self, t, label): return self.e.fresh(SetT(t), label)
    def dict(self, k, v, label): return self.e.fresh(DictT(k, v), label)
    def obj(self, c, label): return self.e.fresh(ObjT(c), label)
    def opt(self, t, label): return self.e.fresh(OptT(t), label)
    def val(self, t, label): return self.e.fresh(t, label)

    # control
    def more(self): return self.e.branch(self.e.const("more", B))
    def choose(self, n, label=""): return self.e.choose(n, label)
    def assume(self, c):
        c = force(c)
        if isinstance(c, SymAny):
            c = mkbool(truthy_term(c.t))
        self.e.assume(c)

    def ensure(self, label, c): self.e.ensure(label, c)
    def fail(self, label, d=""): self.e.fail(label, d)
    def hint(self, f): self.e.hints.append(f)
    def measure(self, f): self.measure_hints.append(f)
    def terminates(self): self.e.require_term = True
    def itemview(self, l, f):
        """elements of l are read through f(index)"""
        self.e.itemviews[l.term.get_id()] = (l.term, f)

    def ghost(self, x):
        self.e.ghosts.append(x)
        return x

    def cell(self, v, label, ty=None):
        return self.ghost(Cell(v, label, ty))

    def arr(self, term, label):
        return self.ghost(ArrCell(term, label))

    # code under contract
    def mod(self, n):
        n = n if n.startswith("booktest") else "booktest." + n
        return self.prog.load(n)

    def cls(self, m, n):
        return getattr(self.mod(m), n)

    def patch(self, o, n, v):
        """replace a callee by its contract (undone before the next path)"""
        if isinstance(o, StubMod):
            PATCHED.append((o, n, o.__dict__.get(n, PATCHED)))
        setattr(o, n, v)

    def patch_fn(self, m, n, v):
        """replace a module-level function by its contract wherever it has been imported"""
        orig = self.mod(m).__dict__.get(n)
        if orig is None:
            return
        for x in list(self.prog.loaded.values()):
            for k, o in list(x.__dict__.items()):
                if o is orig:
                    setattr(x, k, v)

    def new(self, cls, /, **attrs):
        o = object.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o

    def schema(self, name, **d):
        self.e.schema.setdefault(name if isinstance(name, str) else clsname(name), {}).update(d)

    def run(self, f, /, *a, **k):
        """run code; every exception it raises is part of the outcome"""
        try:
            r = f(*a, **k)
            if _inspect.iscoroutine(r):
                r = run_coro(r)
            return Res("ok", r)
        except Control:
            raise
        except BaseException as ex:
            HOOK.caught(ex)
            return Res("exc", ex)

    def eq(self, a, b): return h_eq(a, b)
    def implies(self, a, b): return mkbool(z3.Implies(bterm(a), bterm(b)))
    def both(self, *cs): return conj(cs)
    def either(self, *cs): return mkbool(z3.Or(*[bterm(c) for c in cs]))
    def neg(self, c): return h_not(c)
    def iff(self, a, b): return mkbool(bterm(a) == bterm(b))
    def sym(self, t): return mkbool(bterm(t))
