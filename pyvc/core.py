"""Deductive engine: executes the instrumented repository code on logical values, path by path, with loops cut
by inductive invariants, and discharges the resulting obligations with z3 (fallback: fresh z3, cvc5)."""
import sys
import time
import types
import enum
import z3
from .terms import *


class Control(BaseException):
    """engine control flow; never caught by the code under verification"""

    def __init__(self, *a):
        super().__init__(*a)
        if ENG is not None and not ENG.nobranch:
            if not ENG.dead:
                ENG.cause = self
            ENG.dead = True


class PathEnd(Control):
    pass


class Restart(Control):
    pass


class Unsupported(Control):
    """outside the verified subset: the obligation stays undischarged"""


class Budget(Control):
    pass


# ----------------------------------------------------------------------------------------------- types
class T:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return self.k + (repr(list(self.a)) if self.a else "")

    def __eq__(self, o):
        return isinstance(o, T) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, tuple(map(str, self.a))))


AnyT, NoneT, BoolT, IntT, RealT, StrT, BytesT = (T(k) for k in ("any", "none", "bool", "int", "real", "str", "bytes"))


def EnumT(c): return T("enum", c)
def TupT(*ts): return T("tup", *ts)
def ListT(t): return T("list", t)
def SetT(t): return T("set", t)
def DictT(k, v): return T("dict", k, v)
def ObjT(c): return T("obj", c)
def OptT(t): return t if t.k in ("opt", "any", "none") else T("opt", t)


def join(a, b):
    if a == b:
        return a
    if a is None or a.k == "bot":
        return b
    if b is None or b.k == "bot":
        return a
    if a.k == "opt" or b.k == "opt":
        x = a.a[0] if a.k == "opt" else a
        y = b.a[0] if b.k == "opt" else b
        return OptT(join(x, y))
    if a.k == "none":
        return OptT(b)
    if b.k == "none":
        return OptT(a)
    if {a.k, b.k} == {"int", "real"}:
        return RealT
    if a.k == b.k and a.k in ("list", "set"):
        return T(a.k, join(a.a[0], b.a[0]))
    if a.k == b.k == "dict":
        return DictT(join(a.a[0], b.a[0]), join(a.a[1], b.a[1]))
    if a.k == b.k == "tup" and len(a.a) == len(b.a):
        return TupT(*[join(x, y) for x, y in zip(a.a, b.a)])
    if a.k == b.k == "inst" and a.a[0] is b.a[0]:
        return a
    if a.k in ("inst", "fn") or b.k in ("inst", "fn"):
        return T("poison")
    return AnyT


BOT = T("bot")
ENG = None          # current engine


def E():
    if ENG is None:
        raise Unsupported("no engine")
    return ENG


# ----------------------------------------------------------------------------------------------- values
class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f"hash of a logical value {self!r}")

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of {type(self).__name__}")


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().branch(self.t)

    def __and__(self, o):
        o = bterm(o)
        return mkbool(z3.And(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __eq__(self, o):
        return h_eq(self, o)

    def __ne__(self, o):
        return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"SymBool({self.t})"


def bterm(v):
    v = force(v)
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, SymAny):
        return truthy_term(v.t)
    raise Unsupported(f"bool term of {v!r}")


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(t)


class SymNum(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _b(self, o, f, real=False):
        o = force(o)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SymBool):
            o = SymInt(z3.If(o.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(o, int):
            ot = z3.IntVal(o)
        elif isinstance(o, float):
            ot = z3.RealVal(repr(o))
        elif isinstance(o, SymNum):
            ot = o.t
        else:
            return NotImplemented
        return f(self.t, ot)

    def __add__(self, o): return self._b(o, lambda a, b: mknum(a + b))
    def __radd__(self, o): return self._b(o, lambda a, b: mknum(b + a))
    def __sub__(self, o): return self._b(o, lambda a, b: mknum(a - b))
    def __rsub__(self, o): return self._b(o, lambda a, b: mknum(b - a))

    def __mul__(self, o):
        if isinstance(o, (str, SymStr)):
            return str_repeat(o, self)
        return self._b(o, lambda a, b: mknum(a * b))

    def __rmul__(self, o):
        if isinstance(o, (str, SymStr)):
            return str_repeat(o, self)
        return self._b(o, lambda a, b: mknum(b * a))

    def _div(self, a, b):
        if E().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        toR = lambda t: z3.ToReal(t) if t.sort() == I else t
        return mknum(toR(a) / toR(b))

    def __truediv__(self, o): return self._b(o, self._div)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: self._div(b, a))

    def __floordiv__(self, o):
        def f(a, b):
            if a.sort() != I or b.sort() != I:
                raise Unsupported("real //")
            if E().branch(b == 0):
                raise ZeroDivisionError("")
            E().need(b > 0)
            return mknum(a / b)
        return self._b(o, f)

    def __mod__(self, o):
        def f(a, b):
            if a.sort() != I or b.sort() != I:
                raise Unsupported("real %")
            if E().branch(b == 0):
                raise ZeroDivisionError("")
            E().need(b > 0)
            return mknum(a % b)
        return self._b(o, f)

    def __neg__(self): return mknum(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mknum(z3.If(self.t >= 0, self.t, -self.t))
    def __lt__(self, o): return self._b(o, lambda a, b: mkbool(a < b))
    def __le__(self, o): return self._b(o, lambda a, b: mkbool(a <= b))
    def __gt__(self, o): return self._b(o, lambda a, b: mkbool(a > b))
    def __ge__(self, o): return self._b(o, lambda a, b: mkbool(a >= b))
    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().branch(self.t != 0)

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        import os, traceback
        if os.environ.get("VC_TB"):
            traceback.print_stack()
        raise Unsupported("native use of a logical integer")

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"


class SymInt(SymNum):
    __slots__ = ()


class SymReal(SymNum):
    __slots__ = ()


def mknum(t):
    if t.sort() == I:
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        return SymInt(t)
    return SymReal(t)


def iterm(v):
    v = force(v)
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, SymAny):
        return iterm(v.as_kind("int"))
    raise Unsupported(f"int term of {v!r}")


def sterm(v):
    v = force(v)
    if isinstance(v, str):
        return z3.StringVal(pystr_escape(v))
    if isinstance(v, SymStr):
        return v.t
    if isinstance(v, SymAny):
        return sterm(v.as_kind("str"))
    raise Unsupported(f"str term of {v!r}")


def pystr_escape(v):
    # z3 string literals use \u{..} escapes
    out = []
    for c in v:
        if c == "\\" or ord(c) > 126 or ord(c) < 32:
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def str_repeat(s, n):
    n = force(n)
    st = sterm(s)
    if isinstance(n, int):
        if isinstance(s, str):
            return s * n
        r = z3.StringVal("")
        for _ in range(max(0, n)):
            r = z3.Concat(r, st)
        return mkstr(r)
    return mkstr(uf("str_repeat", S, I, S)(st, iterm(n)))


def mkstr(t):
    s = z3.simplify(t)
    if z3.is_string_value(s):
        return s.py_value() if hasattr(s, "py_value") else s.as_string()
    return SymStr(t)


class SymStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        o = force(o)
        if not isinstance(o, (str, SymStr, SymAny)):
            if o is None or isinstance(o, (int, SymNum, VList)):
                raise TypeError("can only concatenate str")
            return NotImplemented
        return mkstr(z3.Concat(self.t, sterm(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SymAny)):
            raise TypeError("can only concatenate str")
        return mkstr(z3.Concat(sterm(o), self.t))

    def __mul__(self, n): return str_repeat(self, n)
    __rmul__ = __mul__
    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    def __lt__(self, o): return mkbool(self.t < sterm(o))
    def __le__(self, o): return mkbool(self.t <= sterm(o))
    def __gt__(self, o): return mkbool(sterm(o) < self.t)
    def __ge__(self, o): return mkbool(sterm(o) <= self.t)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().branch(z3.Length(self.t) > 0)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from . import lib
        return lib.strmethod(self, n)

    def __iter__(self):
        raise Unsupported("native iteration over a logical string")

    def __repr__(self):
        return f"SymStr({self.t})"


class SymBytes(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().branch(z3.Length(self.t) > 0)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from . import lib
        return lib.bytesmethod(self, n)

    def __repr__(self):
        return f"SymBytes({self.t})"


class SymEnum(Sym):
    __slots__ = ("cls", "t")

    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n == "name":
            return mkstr(enum_name(self.cls, self.t))
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("enum attribute " + n)

    def __repr__(self):
        return f"SymEnum({self.t})"


def enum_members(cls):
    return list(cls)


def enum_name(cls, t):
    ms = enum_members(cls)
    r = z3.StringVal(ms[-1].name)
    for i in range(len(ms) - 2, -1, -1):
        r = z3.If(t == enum_code(ms[i]), z3.StringVal(ms[i].name), r)
    return r


_enum_base = {}


def enum_code(m):
    key = (type(m).__name__, m.name)
    if key not in _enum_base:
        _enum_base[key] = len(_enum_base) + 1
    return _enum_base[key]


class SymAny(Sym):
    """a value of unknown type"""
    __slots__ = ("t", "hint")

    def __init__(self, t, hint=AnyT):
        self.t, self.hint = t, hint

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().branch(truthy_term(self.t))

    def as_kind(self, kind):
        """use as a value of the kind; any other type is a TypeError"""
        test = {"str": PyVal.is_VStr, "int": PyVal.is_VInt, "bytes": PyVal.is_VBytes, "list": PyVal.is_VList,
                "dict": PyVal.is_VDict, "obj": PyVal.is_VObj, "set": PyVal.is_VSet, "real": PyVal.is_VReal}[kind]
        if E().branch(test(self.t)):
            return unpack(self.t, {"str": StrT, "int": IntT, "bytes": BytesT, "list": ListT(AnyT), "real": RealT,
                                   "dict": DictT(AnyT, AnyT), "obj": ObjT(None), "set": SetT(AnyT)}[kind])
        if kind == "int" and E().branch(PyVal.is_VBool(self.t)):
            return mknum(z3.If(PyVal.vb(self.t), z3.IntVal(1), z3.IntVal(0)))
        raise Typeerr(f"not a {kind}")

    def resolve(self):
        e = E()
        for k in ("str", "obj", "int", "list", "dict", "bytes", "set", "real"):
            test = {"str": PyVal.is_VStr, "int": PyVal.is_VInt, "bytes": PyVal.is_VBytes, "list": PyVal.is_VList,
                    "dict": PyVal.is_VDict, "obj": PyVal.is_VObj, "set": PyVal.is_VSet, "real": PyVal.is_VReal}[k]
            if e.branch(test(self.t)):
                return self.as_kind(k)
        if e.branch(PyVal.is_VNone(self.t)):
            return None
        if e.branch(PyVal.is_VBool(self.t)):
            return mkbool(PyVal.vb(self.t))
        raise Unsupported("value of unknown type")

    def _arith(self, op, o):
        return op(self.resolve(), o)

    def __add__(self, o): return self.resolve() + o
    def __radd__(self, o): return o + self.resolve()
    def __sub__(self, o): return self.resolve() - o
    def __rsub__(self, o): return o - self.resolve()
    def __mul__(self, o): return self.resolve() * o
    def __rmul__(self, o): return o * self.resolve()
    def __or__(self, o): return self.resolve() | o
    def __ror__(self, o): return o | self.resolve()
    def __lt__(self, o): return self.resolve() < o
    def __le__(self, o): return self.resolve() <= o
    def __gt__(self, o): return self.resolve() > o
    def __ge__(self, o): return self.resolve() >= o
    def __neg__(self): return -self.resolve()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.resolve(), n)

    def __call__(self, *a, **k):
        return self.as_kind("obj")(*a, **k)

    def __repr__(self):
        return f"SymAny({self.t})"


def Typeerr(m):
    e = TypeError(m)
    e._vc_modelled = True
    return e


class SymOpt(Sym):
    """None or an inner value, undecided"""
    __slots__ = ("isnone", "val")

    def __init__(self, isnone, val):
        object.__setattr__(self, "isnone", isnone)
        object.__setattr__(self, "val", val)

    def get(self):
        return None if E().branch(self.isnone) else self.val

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__
    def __bool__(self):
        v = self.get()
        return bool(h_truth(v))
    def __add__(self, o): return self.get() + o
    def __radd__(self, o): return o + self.get()
    def __sub__(self, o): return self.get() - o
    def __rsub__(self, o): return o - self.get()
    def __mul__(self, o): return self.get() * o
    def __rmul__(self, o): return o * self.get()
    def __lt__(self, o): return self.get() < o
    def __le__(self, o): return self.get() <= o
    def __gt__(self, o): return self.get() > o
    def __ge__(self, o): return self.get() >= o
    def __call__(self, *a, **k): return self.get()(*a, **k)
    def __iter__(self): return iter(self.get())
    def __enter__(self): return self.get().__enter__()
    def __exit__(self, *a): return self.get().__exit__(*a)

    def __getattr__(self, n):
        if n in ("__class__",):
            raise AttributeError(n)
        v = self.get()
        if v is None:
            raise AttributeError(f"'NoneType' object has no attribute '{n}'")
        return getattr(v, n)

    def __setattr__(self, n, x):
        v = self.get()
        if v is None:
            raise AttributeError(f"'NoneType' object has no attribute '{n}'")
        setattr(v, n, x)

    def __repr__(self):
        return f"SymOpt({self.isnone},{self.val})"


def force(v):
    while isinstance(v, SymOpt):
        v = v.get()
    return v


class SymObj(Sym):
    """an object known only logically: its class may be known, its attributes are functions of its identity"""
    __slots__ = ("cls", "t")

    def __init__(self, cls, t):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "t", t)

    def __eq__(self, o):
        c = object.__getattribute__(self, "cls")
        f = class_attr(c, "__eq__")
        if f is not None:
            return f(self, o)
        return h_ident(self, o)

    def __ne__(self, o):
        return h_not(self.__eq__(o))
    __hash__ = Sym.__hash__

    def __bool__(self):
        f = class_attr(self.cls, "__bool__") or class_attr(self.cls, "__len__")
        if f is not None:
            return bool(f(self))
        return True

    def __getattr__(self, n):
        e = E()
        cls = object.__getattribute__(self, "cls")
        sch = e.schema.get(clsname(cls)) or {}
        if n in sch:
            spec = sch[n]
            if callable(spec) and not isinstance(spec, T):
                return spec(self)
            return e.field(cls, n, spec, self.t)
        if isinstance(cls, type):
            f = class_attr(cls, n)
            if f is not None:
                raw = cls.__dict__.get(n) if n in cls.__dict__ else None
                if hasattr(f, "__get__"):
                    raw = _raw_attr(cls, n)
                    return raw.__get__(self, cls)
                return f
        ft = e.fldtypes.get((clsname(cls), n))
        if ft is not None:
            return e.field(cls, n, ft, self.t)
        if n.startswith("__"):
            raise AttributeError(n)
        if sch.get("*closed") or (isinstance(cls, type) and e.fldknown(cls)):
            raise AttributeError(f"no attribute {n}")
        raise Unsupported(f"attribute {n} of logical object of class {clsname(cls)}")

    def __setattr__(self, n, v):
        f = (E().schema.get(clsname(self.cls)) or {}).get("*setattr")
        if f:
            return f(self, n, v)
        raise Unsupported(f"assignment to attribute {n} of a logical object")

    def __call__(self, *a, **k):
        e = E()
        sch = e.schema.get(clsname(self.cls)) or {}
        f = sch.get("__call__")
        if f is None:
            raise Unsupported(f"call of logical object of class {clsname(self.cls)}")
        return f(self, *a, **k)

    def __enter__(self):
        return self.__getattr__("__enter__")()

    def __exit__(self, *a):
        return self.__getattr__("__exit__")(*a)

    def __repr__(self):
        return f"SymObj<{clsname(self.cls)}>({self.t})"


def _raw_attr(cls, n):
    for c in cls.__mro__:
        if n in c.__dict__:
            return c.__dict__[n]
    return None


def class_attr(cls, n):
    if not isinstance(cls, type):
        return None
    for c in cls.__mro__:
        if c is object:
            break
        if n in c.__dict__:
            return c.__dict__[n]
    return None


def clsname(c):
    if c is None:
        return "?"
    if isinstance(c, str):
        return c
    return f"{c.__module__}:{c.__qualname__}"


class Poison(Sym):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def _bad(self, *a, **k):
        raise Unsupported("use of " + self.why)
    __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __lt__ = __gt__ = __call__ = __iter__ = _bad
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        raise Unsupported("use of " + object.__getattribute__(self, "why"))


# ---- containers
class StarMark(Poison):
    """all elements of a logical list, passed with * (only a * parameter can receive it)"""

    def __init__(self, lst):
        Poison.__init__(self, "* of a logical list")
        object.__setattr__(self, "_lst", lst)


class Tracked:
    """mutable engine object whose state takes part in loop havoc"""
    frozen = None

    def mut(self):
        e = ENG
        if e is not None and e.dead:
            raise PathEnd()
        if self.frozen:
            raise Unsupported("mutation of a container that was stored in a logical container: " + self.frozen)


class VList(Tracked):
    def __init__(self, conc=None, term=None, et=BOT, view=None):
        self.conc, self.term, self.et, self.view = conc, term, et, view

    def vstate(self):
        return ("C", tuple(self.conc)) if self.conc is not None else ("T", self.term)

    def totype(self):
        if self.conc is not None:
            et = BOT
            for c in self.conc:
                et = join(et, typeof(c))
            return join(self.et, et)
        return self.et

    def toterm(self, et=None):
        """logical sequence of the content"""
        if self.conc is None:
            return self.term
        t = s_empty
        for c in self.conc:
            t = s_snoc(t, pack(c))
        return t

    def logical(self):
        if self.conc is not None:
            self.et = self.totype()
            self.term = self.toterm()
            self.conc = None

    def changed(self):
        if self.view:
            self.view(self)

    def assign(self, o):
        self.conc, self.term, self.et = (list(o.conc) if o.conc is not None else None), o.term, o.et

    def __len__(self):
        if self.conc is not None:
            return len(self.conc)
        raise Unsupported("native len of logical list")

    def __iter__(self):
        if self.conc is not None:
            return iter(list(self.conc))
        raise Unsupported("native iteration of a logical list")

    def __bool__(self):
        if self.conc is not None:
            return len(self.conc) > 0
        return E().branch(s_len(self.term) > 0)

    def append(self, v):
        self.mut()
        if self.conc is not None:
            self.conc.append(v)
        else:
            self.et = join(self.et, typeof(v))
            self.term = s_snoc(self.term, pack(v))
        self.changed()

    def extend(self, o):
        self.mut()
        o = tolist(o)
        if self.conc is not None and o.conc is not None:
            self.conc.extend(o.conc)
        elif o.conc is not None:
            for x in o.conc:
                self.append(x)
            return
        else:
            et = join(self.totype(), o.totype())
            a, b = self.toterm(), o.toterm()
            self.conc, self.term, self.et = None, s_app(a, b), et
        self.changed()

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        o = force(o)
        if not isinstance(o, VList):
            raise Typeerr("can only concatenate list")
        r = self.copy()
        r.extend(o)
        return r

    def __mul__(self, n):
        if self.conc is not None and isinstance(n, int):
            return VList(conc=self.conc * n)
        raise Unsupported("list repeat")
    __rmul__ = __mul__

    def copy(self):
        return VList(conc=list(self.conc) if self.conc is not None else None, term=self.term, et=self.et)

    def getat(self, i):
        i = force(i)
        if isinstance(i, SymAny):
            i = i.as_kind("int")
        if self.conc is not None and isinstance(i, int):
            return self.conc[i]
        t = self.toterm()
        it = iterm(i)
        n = s_len(t)
        e = E()
        if isinstance(i, int) and i < 0:
            it = n + it
        elif not isinstance(i, int):
            if e.branch(it < 0):
                it = n + it
        if not e.branch(z3.And(0 <= it, it < n)):
            raise IndexError("list index out of range")
        el = s_nth(t, it)
        f = e.itemviews.get(t.get_id())
        if f is not None:
            return f[1](z3.simplify(it))
        e.fact(s_mem(t, el))
        e.fact(type_fact(el, self.totype()))
        return unpack(el, self.totype())

    def setat(self, i, v):
        self.mut()
        if self.conc is not None and isinstance(force(i), int):
            self.conc[force(i)] = v
        else:
            t = self.toterm()
            it = iterm(i)
            if not E().branch(z3.And(0 <= it, it < s_len(t))):
                raise IndexError("list assignment index out of range")
            self.et = join(self.totype(), typeof(v))
            self.term, self.conc = s_upd(t, it, pack(v)), None
        self.changed()

    def insert(self, i, v):
        self.mut()
        if self.conc is not None and isinstance(i, int):
            self.conc.insert(i, v)
        elif isinstance(i, int) and i == 0:
            et = join(self.totype(), typeof(v))
            self.term, self.conc, self.et = s_app(s_snoc(s_empty, pack(v)), self.toterm()), None, et
        else:
            raise Unsupported("insert")
        self.changed()

    def pop(self, i=-1):
        self.mut()
        if self.conc is not None and isinstance(i, int):
            r = self.conc.pop(i)
            self.changed()
            return r
        r = self.getat(i)
        n = s_len(self.term)
        if i == 0:
            self.term = s_drop(self.term, z3.IntVal(1))
        elif i == -1:
            self.term = s_take(self.term, n - 1)
        else:
            raise Unsupported("pop")
        self.changed()
        return r

    def remove(self, v):
        self.mut()
        if self.conc is not None:
            for j, x in enumerate(self.conc):
                if x is v or h_eq(x, v):
                    del self.conc[j]
                    self.changed()
                    return
            raise ValueError("list.remove(x): x not in list")
        if custom_eq(self.totype()):
            i = E().lib.index_loop(self, v)
            if i is None:
                raise ValueError("list.remove(x): x not in list")
            i = iterm(i)
            self.term = s_app(s_take(self.term, i), s_drop(self.term, i + 1))
            self.changed()
            return
        if not E().branch(s_mem(self.term, pack(v))):
            raise ValueError("list.remove(x): x not in list")
        self.term = s_rem(self.term, pack(v))
        self.changed()

    def clear(self):
        self.mut()
        self.conc, self.term, self.et = [], None, BOT
        self.changed()

    def reverse(self):
        self.mut()
        if self.conc is not None:
            self.conc.reverse()
        else:
            self.term = s_rev(self.term)
        self.changed()

    def index(self, v):
        if self.conc is not None:
            for j, x in enumerate(self.conc):
                if x is v or h_eq(x, v):
                    return j
            raise ValueError("not in list")
        if custom_eq(self.totype()):
            i = E().lib.index_loop(self, v)
            if i is None:
                raise ValueError("not in list")
            return i
        p = pack(v)
        if not E().branch(s_mem(self.term, p)):
            raise ValueError("not in list")
        return mknum(s_idx(self.term, p))

    def count(self, v):
        if self.conc is not None:
            n = 0
            for x in self.conc:
                if x is v or h_eq(x, v):
                    n += 1
            return n
        raise Unsupported("list.count")

    def sort(self, key=None, reverse=False):
        self.mut()
        r = E().lib.sorted_list(self, key, reverse)
        self.assign(r)
        self.changed()

    def has(self, v):
        if self.conc is not None:
            for x in self.conc:
                if x is v:
                    return True
            r = False
            for x in self.conc:
                q = h_eq(x, v)
                if q is True:
                    return True
                if q is not False:
                    r = q if r is False else mkbool(z3.Or(bterm(r), bterm(q)))
            return r
        if custom_eq(self.totype()):
            return E().lib.in_loop(self, v)
        return mkbool(s_mem(self.term, pack(v)))

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"VList({self.conc if self.conc is not None else self.term})"


def custom_eq(t):
    if t.k == "obj":
        return class_attr(t.a[0], "__eq__") is not None and not E().ident_eq(t.a[0])
    if t.k == "opt":
        return custom_eq(t.a[0])
    return False


class VSet(Tracked):
    def __init__(self, term=None, et=BOT, view=None, conc=None):
        self.term, self.et, self.view = (term if term is not None else t_empty), et, view

    def vstate(self):
        return ("T", self.term)

    def changed(self):
        if self.view:
            self.view(self)

    def assign(self, o):
        self.term, self.et = o.term, o.et

    def add(self, v):
        self.mut()
        self.et = join(self.et, typeof(v))
        self.term = t_add(self.term, pack(v))
        self.changed()

    def discard(self, v):
        self.mut()
        self.term = t_rem(self.term, pack(v))
        self.changed()

    def remove(self, v):
        self.mut()
        if not E().branch(t_mem(self.term, pack(v))):
            raise KeyError("set.remove")
        self.term = t_rem(self.term, pack(v))
        self.changed()

    def pop(self):
        self.mut()
        if not E().branch(t_card(self.term) > 0):
            raise KeyError("pop from an empty set")
        w = t_wit(self.term)
        E().fact(t_mem(self.term, w))
        self.term = t_rem(self.term, w)
        self.changed()
        return unpack(w, self.et)

    def clear(self):
        self.mut()
        self.term = t_empty
        self.changed()

    def copy(self):
        return VSet(self.term, self.et)

    def update(self, *os):
        self.mut()
        for o in os:
            o = toset(o)
            self.et = join(self.et, o.et)
            self.term = t_union(self.term, o.term)
        self.changed()

    def __ior__(self, o):
        self.mut()
        o = toset(o)
        self.et = join(self.et, o.et)
        self.term = t_union(self.term, o.term)
        self.changed()
        return self

    def __isub__(self, o):
        self.mut()
        self.term = t_diff(self.term, toset(o).term)
        self.changed()
        return self

    def __iand__(self, o):
        self.mut()
        self.term = t_inter(self.term, toset(o).term)
        self.changed()
        return self

    def difference_update(self, *os):
        for o in os:
            self.__isub__(o)

    def intersection_update(self, *os):
        for o in os:
            self.__iand__(o)

    def __or__(self, o):
        o = toset(o)
        return VSet(t_union(self.term, o.term), join(self.et, o.et))

    def __and__(self, o):
        o = toset(o)
        return VSet(t_inter(self.term, o.term), self.et)
    __rand__ = __and__

    def __sub__(self, o):
        return VSet(t_diff(self.term, toset(o).term), self.et)
    union, intersection, difference = __or__, __and__, __sub__

    def isdisjoint(self, o):
        return mkbool(t_card(t_inter(self.term, toset(o).term)) == 0)

    def issubset(self, o):
        return mkbool(t_card(t_diff(self.term, toset(o).term)) == 0)

    def issuperset(self, o):
        return toset(o).issubset(self)
    __le__, __ge__ = issubset, issuperset

    def has(self, v):
        return mkbool(t_mem(self.term, pack(v)))

    def __bool__(self):
        return E().branch(t_card(self.term) > 0)

    def __iter__(self):
        raise Unsupported("native iteration over a set")

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"VSet({self.term})"


def conc_key(kp):
    return z3.is_app(kp) and kp.decl().name() == "VStr" and z3.is_string_value(kp.arg(0))


def peel(t, kp):
    """(value, None) when the map term t visibly binds kp, else (None, the map below the bindings of other constant keys)"""
    if not conc_key(kp):
        return None, t
    while z3.is_app(t) and t.decl().name() in ("d_set", "d_del"):
        k2 = t.arg(1)
        if k2.eq(kp):
            return (t.arg(2), None) if t.decl().name() == "d_set" else (None, t)
        if not conc_key(k2):
            return None, t
        t = t.arg(0)
    return None, t


class VDict(Tracked):
    """conc: list of [native key, value]; or a logical map"""

    def __init__(self, conc=None, term=None, kt=BOT, vt=BOT, default=None, ordered=False):
        self.conc, self.term, self.kt, self.vt, self.default, self.ordered = conc, term, kt, vt, default, ordered
        if conc is None and term is None:
            self.conc = []

    def vstate(self):
        return ("C", tuple((k, v) for k, v in self.conc)) if self.conc is not None else ("T", self.term)

    def changed(self):
        pass

    def assign(self, o):
        self.conc = [list(x) for x in o.conc] if o.conc is not None else None
        self.term, self.kt, self.vt = o.term, o.kt, o.vt

    def types(self):
        kt, vt = self.kt, self.vt
        if self.conc is not None:
            for k, v in self.conc:
                kt, vt = join(kt, typeof(k)), join(vt, typeof(v))
        return kt, vt

    def toterm(self):
        if self.conc is None:
            return self.term
        t = d_empty
        for k, v in self.conc:
            t = d_set(t, pack(k), pack(v))
        return t

    def logical(self):
        if self.conc is not None:
            self.kt, self.vt = self.types()
            self.term = self.toterm()
            self.conc = None

    @staticmethod
    def nkey(k):
        return isinstance(k, (str, int, float, bool, bytes, type(None), tuple, enum.Enum)) and not \
            (isinstance(k, tuple) and any(isinstance(x, (Sym, Tracked)) for x in k))

    def find(self, k):
        """conc mode, returns index/None; or None,False when undecidable natively"""
        if self.conc is None:
            return None
        if self.nkey(k) or not isinstance(k, (Sym, Tracked)):
            for i, (a, _) in enumerate(self.conc):
                if isinstance(a, Sym):
                    return "?"
                if a is k or (type(a) == type(k) and self.nkey(k) and a == k):
                    return i
            return -1
        return "?"

    def has(self, k):
        k = force(k)
        f = self.find(k)
        if isinstance(f, int):
            return f >= 0
        kp = pack(k)
        v, t = peel(self.toterm(), kp)
        if v is not None:
            return True
        if t.eq(d_empty):
            return False
        return mkbool(t_mem(d_dom(t), kp))

    def _view(self, k, v):
        if isinstance(v, (VSet, VList, VDict)) and self.conc is None:
            kp = pack(k)

            def upd(o, self=self, kp=kp):
                self.term = d_set(self.term, kp, pack_content(o))
            v.view = upd
            v.frozen = None
            if isinstance(v, VDict):
                v.frozen = "nested map view"
        return v

    def getk(self, k):
        k = force(k)
        f = self.find(k)
        if isinstance(f, int):
            if f >= 0:
                return self.conc[f][1]
        else:
            if f == "?" and self.conc is not None:
                # concrete map, logical key: case split over the keys
                for a, v in self.conc:
                    q = h_eq(a, k)
                    if q is True or (q is not False and E().branch(bterm(q))):
                        return v
            else:
                kp = pack(k)
                v, t = peel(self.term, kp)
                if v is not None:
                    return self._view(k, unpack(v, self.vt))
                if E().branch(t_mem(d_dom(t), kp)):
                    E().fact(type_fact(d_get(t, kp), self.vt))
                    return self._view(k, unpack(d_get(t, kp), self.vt))
        if self.default is not None:
            v = self.default()
            self.setk(k, v)
            return self.getk(k) if self.conc is None else v
        raise KeyError(k if not isinstance(k, Sym) else "<logical key>")

    def get(self, k, d=None):
        k = force(k)
        f = self.find(k)
        if isinstance(f, int):
            return self.conc[f][1] if f >= 0 else d
        if self.conc is not None:
            for a, v in self.conc:
                q = h_eq(a, k)
                if q is True or (q is not False and E().branch(bterm(q))):
                    return v
            return d
        kp = pack(k)
        kt, vt = self.types()
        v, term = peel(self.term, kp)
        if v is not None:
            return self._view(k, unpack(v, vt))
        dom = t_mem(d_dom(term), kp)
        if simple(d) and vt.k in ("any", "str", "bool", "int", "bytes", "real"):
            if vt.k != "any":
                E().fact(z3.Implies(dom, type_fact(d_get(term, kp), vt)))
            return unpack(z3.If(dom, d_get(term, kp), pack(d)), join(vt, typeof(d)))
        if E().branch(dom):
            E().fact(type_fact(d_get(term, kp), vt))
            return self._view(k, unpack(d_get(term, kp), vt))
        return d

    def setk(self, k, v):
        self.mut()
        k = force(k)
        f = self.find(k)
        if isinstance(f, int):
            if f >= 0:
                self.conc[f][1] = v
            else:
                self.conc.append([k, v])
            return
        self.logical()
        self.kt, self.vt = join(self.kt, typeof(k)), join(self.vt, typeof(v))
        self.term = d_set(self.term, pack(k), pack(v))

    def delk(self, k):
        self.mut()
        k = force(k)
        f = self.find(k)
        if isinstance(f, int):
            if f < 0:
                raise KeyError(k)
            del self.conc[f]
            return
        self.logical()
        if not E().branch(t_mem(d_dom(self.term), pack(k))):
            raise KeyError("<logical key>")
        self.term = d_del(self.term, pack(k))

    _NO = object()

    def pop(self, k, d=_NO):
        k = force(k)
        q = self.has(k)
        if q is True or (q is not False and E().branch(bterm(q))):
            v = self.getk(k)
            self.delk(k)
            return v
        if d is VDict._NO:
            raise KeyError("pop")
        return d

    def setdefault(self, k, d=None):
        q = self.has(k)
        if not (q is True or (q is not False and E().branch(bterm(q)))):
            self.setk(k, d)
        return self.getk(k)

    def update(self, o=None, **kw):
        self.mut()
        if o is not None:
            o = force(o)
            if isinstance(o, VDict) and o.conc is not None:
                for k, v in o.conc:
                    self.setk(k, v)
            elif isinstance(o, VDict):
                E().lib.dict_update(self, o)
            else:
                for kv in tolist(o):
                    self.setk(kv[0], kv[1])
        for k, v in kw.items():
            self.setk(k, v)

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def copy(self):
        r = VDict(conc=[list(x) for x in self.conc] if self.conc is not None else None, term=self.term,
                  kt=self.kt, vt=self.vt, default=self.default, ordered=self.ordered)
        return r

    def clear(self):
        self.mut()
        self.conc, self.term = [], None

    def move_to_end(self, k, last=True):
        self.mut()
        k = force(k)
        if not last:
            raise Unsupported("move_to_end(last=False)")
        f = self.find(k)
        if isinstance(f, int):
            if f < 0:
                raise KeyError(k)
            x = self.conc.pop(f)
            self.conc.append(x)
            return
        self.logical()
        if not E().branch(t_mem(d_dom(self.term), pack(k))):
            raise KeyError("<logical key>")
        self.term = d_end(self.term, pack(k))

    def popitem(self, last=True):
        self.mut()
        if self.conc is not None:
            if not self.conc:
                raise KeyError("dictionary is empty")
            k, v = self.conc.pop(-1 if last else 0)
            return (k, v)
        o = d_ord(self.term)
        if not E().branch(s_len(o) > 0):
            raise KeyError("dictionary is empty")
        k = s_nth(o, s_len(o) - 1 if last else z3.IntVal(0))
        e = E()
        e.fact(s_mem(o, k))
        e.fact(t_mem(d_dom(self.term), k))
        v = d_get(self.term, k)
        self.term = d_del(self.term, k)
        return (unpack(k, self.kt), unpack(v, self.vt))

    def keys(self):
        return DView(self, "keys")

    def values(self):
        return DView(self, "values")

    def items(self):
        return DView(self, "items")

    def size(self):
        if self.conc is not None:
            return len(self.conc)
        return mknum(s_len(d_ord(self.term)))

    def __len__(self):
        if self.conc is not None:
            return len(self.conc)
        raise Unsupported("native len of a logical map")

    def __iter__(self):
        if self.conc is not None:
            return iter([k for k, _ in self.conc])
        raise Unsupported("native iteration of a logical map")

    def __bool__(self):
        if self.conc is not None:
            return len(self.conc) > 0
        return E().branch(s_len(d_ord(self.term)) > 0)

    def __eq__(self, o): return h_eq(self, o)
    def __ne__(self, o): return h_not(h_eq(self, o))
    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"VDict({self.conc if self.conc is not None else self.term})"


class DView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def iterspec(self):
        d = self.d
        if d.conc is not None:
            if self.kind == "keys":
                return [k for k, _ in d.conc]
            if self.kind == "values":
                return [v for _, v in d.conc]
            return [(k, v) for k, v in d.conc]
        t = d.term
        o = d_ord(t)
        kt, vt = d.kt, d.vt

        def item(k):
            kp = s_nth(o, k)
            E().fact(t_mem(d_dom(t), kp))
            E().fact(s_mem(o, kp))
            E().fact(type_fact(kp, kt))
            E().fact(type_fact(d_get(t, kp), vt))
            if self.kind == "keys":
                return unpack(kp, kt)
            v = unpack(d_get(t, kp), vt)
            if self.kind == "values":
                return v
            return (unpack(kp, kt), v)
        return SymIter(s_len(o), item, o if self.kind == "keys" else None, kt if self.kind == "keys" else None, src=d, base=o)

    def __iter__(self):
        r = self.iterspec()
        if isinstance(r, list):
            return iter(r)
        raise Unsupported("native iteration of a logical map view")

    def has(self, v):
        if self.kind == "keys":
            return self.d.has(v)
        if self.kind == "values":
            return tolist(self).has(v)
        raise Unsupported("in items()")

    def __bool__(self):
        return bool(self.d)

    def toset(self):
        if self.kind != "keys":
            raise Unsupported("set of values view")
        kt, _ = self.d.types()
        return VSet(d_dom(self.d.toterm()), kt)

    def __and__(self, o): return self.toset() & o
    def __or__(self, o): return self.toset() | o
    def __sub__(self, o): return self.toset() - o


class SymIter:
    """n items; item(k); seq: the underlying sequence of (packed) items when there is one"""

    def __init__(self, n, item, seq=None, et=None, src=None, base=None):
        self.n, self.item, self.seq, self.et, self.src = n, item, seq, et, src
        self.base = base if base is not None else seq

    def __iter__(self):
        raise Unsupported("native use of a logical iterator")


class Cell(Tracked):
    """ghost variable of the contract layer; takes part in loop havoc"""

    def __init__(self, v, label, ty=None):
        self.v, self.label, self.ty = v, label, ty

    def vstate(self):
        return ("V", self.v)


class ArrCell(Tracked):
    """ghost state: z3 term (array or any sort)"""

    def __init__(self, term, label):
        self.term, self.label = term, label

    def vstate(self):
        return ("T", self.term)


# ----------------------------------------------------------------------------------------------- pack / unpack
def simple(v):
    return v is None or isinstance(v, (bool, int, float, str, SymBool, SymNum, SymStr, SymEnum, enum.Enum, SymAny))


def is_repo_instance(v):
    return E().is_repo_class(type(v))


def pack_content(v):
    if isinstance(v, VList):
        return PyVal.VList(v.toterm())
    if isinstance(v, VSet):
        return PyVal.VSet(v.term)
    return PyVal.VDict(v.toterm())


def pack(v):
    if v is None:
        return PyVal.VNone
    if isinstance(v, bool):
        return PyVal.VBool(z3.BoolVal(v))
    if isinstance(v, SymBool):
        return PyVal.VBool(v.t)
    if isinstance(v, enum.Enum):
        return PyVal.VEnum(z3.IntVal(enum_code(v)))
    if isinstance(v, int):
        return PyVal.VInt(z3.IntVal(v))
    if isinstance(v, SymInt):
        return PyVal.VInt(v.t)
    if isinstance(v, float):
        return PyVal.VReal(z3.RealVal(repr(v)))
    if isinstance(v, SymReal):
        return PyVal.VReal(v.t)
    if isinstance(v, str):
        return PyVal.VStr(sterm(v))
    if isinstance(v, SymStr):
        return PyVal.VStr(v.t)
    if isinstance(v, bytes):
        return PyVal.VBytes(z3.StringVal(pystr_escape(v.decode("latin1"))))
    if isinstance(v, SymBytes):
        return PyVal.VBytes(v.t)
    if isinstance(v, SymEnum):
        return PyVal.VEnum(v.t)
    if isinstance(v, SymAny):
        return v.t
    if isinstance(v, SymOpt):
        return z3.If(v.isnone, PyVal.VNone, pack(v.val))
    if isinstance(v, SymObj):
        return PyVal.VObj(v.t)
    if isinstance(v, tuple):
        n = len(v)
        if n > 4:
            raise Unsupported("tuple longer than 4")
        if n == 0:
            return PyVal.VTup0
        return [None, PyVal.VTup1, PyVal.VTup2, PyVal.VTup3, PyVal.VTup4][n](*[pack(x) for x in v])
    if isinstance(v, VList):
        if not v.frozen:
            v.frozen = "list"
        if v.conc is not None and 1 <= len(v.conc) <= 4 and E().list_as_tuple:
            return pack(tuple(v.conc))
        return PyVal.VList(v.toterm())
    if isinstance(v, VSet):
        if not v.frozen:
            v.frozen = "set"
        return PyVal.VSet(v.term)
    if isinstance(v, VDict):
        if not v.frozen:
            v.frozen = "dict"
        return PyVal.VDict(v.toterm())
    if isinstance(v, Poison):
        v._bad()
    return PyVal.VObj(E().obj_const(v))


def typeof(v):
    if v is None:
        return NoneT
    if isinstance(v, (bool, SymBool)):
        return BoolT
    if isinstance(v, enum.Enum):
        return EnumT(type(v))
    if isinstance(v, SymEnum):
        return EnumT(v.cls)
    if isinstance(v, (int, SymInt)):
        return IntT
    if isinstance(v, (float, SymReal)):
        return RealT
    if isinstance(v, (str, SymStr)):
        return StrT
    if isinstance(v, (bytes, SymBytes)):
        return BytesT
    if isinstance(v, SymAny):
        return AnyT
    if isinstance(v, SymOpt):
        return OptT(typeof(v.val))
    if isinstance(v, SymObj):
        return ObjT(v.cls)
    if isinstance(v, tuple):
        return TupT(*[typeof(x) for x in v])
    if isinstance(v, VList):
        if v.conc is not None and 1 <= len(v.conc) <= 4 and E().list_as_tuple:
            return TupT(*[typeof(x) for x in v.conc])
        return ListT(v.totype())
    if isinstance(v, VSet):
        return SetT(v.et)
    if isinstance(v, VDict):
        return DictT(*v.types())
    if isinstance(v, Poison):
        return T("poison")
    if E().is_repo_class(type(v)):
        return ObjT(type(v))
    return ObjT(None)


def unpack(t, ty):
    k = ty.k
    if k == "bot":
        return SymAny(t)
    if k == "any":
        s = z3.simplify(t)
        return const_of(s, SymAny(t))
    if k == "none":
        return None
    if k == "bool":
        return mkbool(PyVal.vb(t))
    if k == "int":
        return mknum(z3.simplify(PyVal.vi(t)) if t.decl().name() == "VInt" else PyVal.vi(t))
    if k == "real":
        E_ = ENG
        return mknum(PyVal.vr(t))
    if k == "str":
        return mkstr(PyVal.vs(t))
    if k == "bytes":
        return SymBytes(PyVal.vbs(t))
    if k == "enum":
        return SymEnum(ty.a[0], PyVal.ve(t))
    if k == "tup":
        n = len(ty.a)
        acc = {0: [], 1: [PyVal.t1a], 2: [PyVal.t2a, PyVal.t2b], 3: [PyVal.t3a, PyVal.t3b, PyVal.t3c],
               4: [PyVal.t4a, PyVal.t4b, PyVal.t4c, PyVal.t4d]}[n]
        return tuple(unpack(a(t), x) for a, x in zip(acc, ty.a))
    if k == "list":
        return VList(term=PyVal.vl(t), et=ty.a[0])
    if k == "set":
        return VSet(PyVal.vset(t), ty.a[0])
    if k == "dict":
        return VDict(term=PyVal.vd(t), kt=ty.a[0], vt=ty.a[1])
    if k == "obj":
        return SymObj(ty.a[0], PyVal.vo(t))
    if k == "opt":
        return SymOpt(PyVal.is_VNone(t), unpack(t, ty.a[0]))
    raise Unsupported(f"unpack {ty}")


def const_of(s, d):
    P = PyVal
    n = s.decl().name() if z3.is_app(s) else ""
    if n == "VNone":
        return None
    if n == "VBool" and (z3.is_true(s.arg(0)) or z3.is_false(s.arg(0))):
        return z3.is_true(s.arg(0))
    if n == "VBool":
        return SymBool(s.arg(0))
    if n == "VInt":
        return mknum(s.arg(0))
    if n == "VStr":
        return mkstr(s.arg(0))
    return d


def type_fact(t, ty):
    """z3 formula: the PyVal t has type ty (shallow)"""
    P = PyVal
    k = ty.k
    m = {"none": P.is_VNone, "bool": P.is_VBool, "int": P.is_VInt, "real": P.is_VReal, "str": P.is_VStr,
         "bytes": P.is_VBytes, "list": P.is_VList, "set": P.is_VSet, "dict": P.is_VDict, "obj": P.is_VObj}
    if k in m:
        return m[k](t)
    if k == "enum":
        return z3.And(P.is_VEnum(t), z3.Or(*[P.ve(t) == enum_code(x) for x in enum_members(ty.a[0])]))
    if k == "tup":
        n = len(ty.a)
        if n == 0:
            return P.is_VTup0(t)
        test = [None, P.is_VTup1, P.is_VTup2, P.is_VTup3, P.is_VTup4][n]
        acc = {1: [P.t1a], 2: [P.t2a, P.t2b], 3: [P.t3a, P.t3b, P.t3c], 4: [P.t4a, P.t4b, P.t4c, P.t4d]}[n]
        return z3.And(test(t), *[type_fact(a(t), x) for a, x in zip(acc, ty.a)])
    if k == "opt":
        return z3.Or(P.is_VNone(t), type_fact(t, ty.a[0]))
    return z3.BoolVal(True)


# ----------------------------------------------------------------------------------------------- equality etc.
def h_not(v):
    v = force(v)
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.t))
    if isinstance(v, SymAny):
        return mkbool(z3.Not(truthy_term(v.t)))
    return not v


def h_truth(v):
    v = force(v)
    if isinstance(v, (SymBool, bool)):
        return v
    return bool(v)


def h_ident(a, b):
    if isinstance(a, SymObj) and isinstance(b, SymObj):
        return mkbool(a.t == b.t)
    if isinstance(a, SymObj) or isinstance(b, SymObj):
        o, x = (a, b) if isinstance(a, SymObj) else (b, a)
        if isinstance(x, SymAny):
            return mkbool(PyVal.VObj(o.t) == x.t)
        if x is None or simple(x) or isinstance(x, (Tracked, tuple)):
            return False
        return mkbool(o.t == E().obj_const(x))
    return a is b


KINDS = (("num", (bool, int, float, SymBool, SymNum)), ("str", (str, SymStr)), ("bytes", (bytes, SymBytes)),
         ("list", (VList,)), ("tuple", (tuple,)), ("set", (VSet,)), ("dict", (VDict,)))


def kind(v):
    if isinstance(v, (enum.Enum, SymEnum)):
        return "enum"
    for k, ts in KINDS:
        if isinstance(v, ts):
            return k
    if v is None:
        return "none"
    return "obj"


def h_eq(a, b):
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        if isinstance(a, SymOpt) and not isinstance(b, SymOpt) and b is None:
            return mkbool(a.isnone)
        if isinstance(b, SymOpt) and a is None:
            return mkbool(b.isnone)
        if isinstance(a, SymOpt) and not isinstance(b, SymOpt) and simple(b) and simple(a.val) and not isinstance(b, SymAny):
            q = h_eq(a.val, b)
            return mkbool(z3.And(z3.Not(a.isnone), bterm(q)))
        if isinstance(b, SymOpt) and not isinstance(a, SymOpt) and simple(a) and simple(b.val) and not isinstance(a, SymAny):
            q = h_eq(a, b.val)
            return mkbool(z3.And(z3.Not(b.isnone), bterm(q)))
        return h_eq(force(a), force(b))
    ka, kb = kind(a), kind(b)
    if isinstance(a, SymAny) or isinstance(b, SymAny):
        if isinstance(a, (Poison,)) or isinstance(b, Poison):
            raise Unsupported("poison")
        if ka in ("num",) and isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
            pass
        return mkbool(pack(a) == pack(b))
    if ka == "obj" or kb == "obj":
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("poison")
        if isinstance(a, SymObj) or isinstance(b, SymObj):
            if isinstance(a, SymObj):
                f = class_attr(a.cls, "__eq__")
                if f is not None:
                    return f(a, b)
            if isinstance(b, SymObj):
                f = class_attr(b.cls, "__eq__")
                if f is not None:
                    return f(b, a)
                if ka == "obj" and not isinstance(a, SymObj) and class_attr(type(a), "__eq__") is not None:
                    return a == b
            return h_ident(a, b)
        return a == b
    if ka != kb:
        return False
    if ka == "num":
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        return mkbool(nterm(a) == nterm(b))
    if ka == "str":
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return mkbool(sterm(a) == sterm(b))
    if ka == "bytes":
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        return mkbool(PyVal.vbs(pack(a)) == PyVal.vbs(pack(b)))
    if ka == "enum":
        if isinstance(a, enum.Enum) and isinstance(b, enum.Enum):
            return a is b
        return mkbool(PyVal.ve(pack(a)) == PyVal.ve(pack(b)))
    if ka == "tuple":
        if len(a) != len(b):
            return False
        return conj([h_eq(x, y) for x, y in zip(a, b)])
    if ka == "list":
        if a.conc is not None and b.conc is not None:
            if len(a.conc) != len(b.conc):
                return False
            return conj([h_eq(x, y) for x, y in zip(a.conc, b.conc)])
        x, y = a.toterm(), b.toterm()
        if not x.eq(y):
            E().fact(z3.Or(s_eqq(x, y), z3.Not(s_eqq(x, y))))
        return mkbool(x == y)
    if ka == "set":
        x, y = a.term, b.term
        E().fact(z3.Or(t_eqq(x, y), z3.Not(t_eqq(x, y))))
        return mkbool(x == y)
    if ka == "dict":
        return mkbool(a.toterm() == b.toterm())
    return a == b


def nterm(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    return v.t


def conj(qs):
    ts = []
    for q in qs:
        q = force(q)
        if q is False:
            return False
        if q is True:
            continue
        ts.append(bterm(q))
    if not ts:
        return True
    return mkbool(z3.And(*ts))


def tolist(o):
    """python list semantics of list(o)"""
    o = force(o)
    if isinstance(o, VList):
        return o
    if isinstance(o, (tuple, list)):
        return VList(conc=list(o))
    if isinstance(o, str):
        return VList(conc=list(o))
    if isinstance(o, SymAny):
        return tolist(o.resolve())
    if isinstance(o, VSet):
        return VList(term=t_seq(o.term), et=o.et)
    if isinstance(o, VDict):
        o = o.keys()
    if isinstance(o, DView):
        r = o.iterspec()
        if isinstance(r, list):
            return VList(conc=r)
        o = r
    if isinstance(o, SymIter):
        if o.seq is not None:
            return VList(term=o.seq, et=o.et)
        return E().prelude("collect")(o)
    if isinstance(o, EagerIter):
        r = VList(conc=o.lst.conc and list(o.lst.conc), term=o.lst.term, et=o.lst.et)
        if o.lst.conc is not None:
            r.conc = list(o.lst.conc[o.pos:])
        elif o.pos:
            raise Unsupported("partially consumed iterator")
        return r
    if isinstance(o, types.GeneratorType) or hasattr(o, "__next__") or hasattr(o, "__iter__"):
        return E().prelude("collect")(o)
    if isinstance(o, Sym) or isinstance(o, (int, float)) or o is None:
        raise Typeerr("object is not iterable")
    return VList(conc=list(o))


class EagerIter:
    """iterator over an eagerly evaluated list"""

    def __init__(self, lst):
        self.lst, self.pos = lst, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.lst.conc is None:
            raise Unsupported("native next on logical iterator")
        if self.pos >= len(self.lst.conc):
            raise StopIteration()
        self.pos += 1
        return self.lst.conc[self.pos - 1]


def toset(o):
    o = force(o)
    if isinstance(o, VSet):
        return o
    if isinstance(o, DView):
        return o.toset()
    if isinstance(o, VDict):
        return o.keys().toset()
    l = tolist(o)
    if l.conc is not None:
        s = VSet()
        for x in l.conc:
            s.et = join(s.et, typeof(x))
            s.term = t_add(s.term, pack(x))
        return s
    return VSet(t_ofseq(l.term), l.et)
