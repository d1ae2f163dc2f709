"""Specification helpers used by the contracts (plain z3-level functions; nothing here touches the code under verification)."""
import z3
from pyvc.core import *
from pyvc.terms import *

Str = z3.StringVal


def sv(x):
    """z3 string term of a PyVal element"""
    return PyVal.vs(x)


def nth(l, j):
    return s_nth(l.toterm() if isinstance(l, VList) else l, j)


def size(l):
    return s_len(l.toterm() if isinstance(l, VList) else l)


def named(V, t):
    """a constant equal to t (usable in patterns)"""
    if z3.is_const(t):
        return t
    tab = V.e.named_terms
    r = tab.get(t.get_id())
    if r is None:
        r = (V.e.const("named", t.sort()), t)
        tab[t.get_id()] = r
        V.e.fact(r[0] == t)
    return r[0]


_n = [0]


def forall_in(l, f, lo=None, hi=None):
    """for every index j of the list: f(element)"""
    t = l.toterm() if isinstance(l, VList) else l
    j = z3.Int("jq")
    hi = s_len(t) if hi is None else hi
    lo = z3.IntVal(0) if lo is None else lo
    el = s_nth(t, j)
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), f(el)), patterns=[el])


def exists_in(l, f, lo=None, hi=None):
    t = l.toterm() if isinstance(l, VList) else l
    j = z3.Int("jq")
    hi = s_len(t) if hi is None else hi
    lo = z3.IntVal(0) if lo is None else lo
    return z3.Not(forall_in(l, lambda e: z3.Not(f(e)), lo, hi))


def pred_hints(V, preds):
    """invariant candidates from predicates over the elements a loop has visited: preds = {name: f(element term)}"""
    def hint(c):
        out = []
        if c.seq is None:
            return out
        k = c.k
        for pn, f in preds.items():
            for neg in (False, True):
                g = (lambda e, f=f: z3.Not(f(e))) if neg else f
                tag = pn + ("-" if neg else "+")
                A = forall_in(c.seq, g, hi=k)
                for l, v, i in c.bools():
                    b = bterm(v)
                    out.append((f"{l}->A{tag}", z3.Implies(b, A)))
                    out.append((f"!{l}->A{tag}", z3.Implies(z3.Not(b), A)))
                    out.append((f"{l}->E{tag}", z3.Implies(b, z3.Not(A))))
                    out.append((f"!{l}->E{tag}", z3.Implies(z3.Not(b), z3.Not(A))))
                for l, v, i in c.ints():
                    n = iterm(v)
                    n0 = iterm(i)
                    out.append((f"{l}-i<=k", n - n0 <= k))
                    out.append((f"{l}>=i", n - n0 >= 0))
                    out.append((f"{l}==k<->A{tag}", (n - n0 == k) == A))
                    out.append((f"{l}==0<->A{tag}", (n == n0) == A))
                for l, v, i in c.lists():
                    t = v.toterm()
                    n = s_len(t)
                    i0 = s_len(i.toterm()) if isinstance(i, VList) else z3.IntVal(0)
                    out.append((f"#{l}-i<=k", n - i0 <= k))
                    out.append((f"#{l}>=i", n >= i0))
                    out.append((f"#{l}==k<->A{tag}", (n - i0 == k) == A))
                    out.append((f"#{l}==0<->A{tag}", (n == i0) == A))
                    out.append((f"{l} all {tag}", forall_in(t, g, lo=i0)))
        seen = {}
        for n, t in out:
            seen.setdefault(n, t)
        return list(seen.items())
    V.hint(hint)


class Filt:
    """the sublist of seq of the elements satisfying pred, in order: upto(k) covers the first k elements"""
    _n = 0

    def __init__(self, V, seq, pred, f=None):
        Filt._n += 1
        self.V, self.seq, self.pred, self.f = V, seq.toterm() if isinstance(seq, VList) else seq, pred, f or (lambda e: e)
        self.fn = z3.Function(f"filt!{Filt._n}", I, SeqS)
        V.e.fact(self.fn(z3.IntVal(0)) == s_empty)

    def upto(self, k):
        k = z3.simplify(k)
        for j in (k, k + 1):
            e = s_nth(self.seq, j - 1)
            self.V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(self.seq)),
                                     self.fn(j) == z3.If(self.pred(e), s_snoc(self.fn(j - 1), self.f(e)), self.fn(j - 1))))
        return self.fn(k)

    def all(self):
        return self.fn(s_len(self.seq))


def filt_hints(V, *fs):
    """lists built by filtering (and mapping) a sequence"""
    def hint(c):
        out = []
        if c.seq is None:
            return out
        for i, f in enumerate(fs):
            if not f.seq.eq(c.seq):
                continue
            t = f.upto(c.k)
            for l, v, i0 in c.lists():
                if isinstance(i0, VList):
                    out.append((f"{l} filt{i}", v.toterm() == s_app(i0.toterm(), t)))
        return out
    V.hint(hint)


def items_strs(c):
    """string values in scope: locals and the elements being looped over"""
    out = []
    for v in list(c.locals.values()) + list(c.E.path_items[-6:]):
        v = v.val if isinstance(v, SymOpt) else v
        if isinstance(v, SymStr) and not any(v.t.eq(o) for o in out):
            out.append(v.t)
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, SymStr) and not any(x.t.eq(o) for o in out):
                    out.append(x.t)
    return out


class First:
    """at(x): index of the first element of seq with key(element) == x, or the length when there is none"""

    def __init__(self, V, seq, key, label="first"):
        self.V, self.seq, self.key = V, seq.toterm() if isinstance(seq, VList) else seq, key
        self.fn = z3.Function(label, S, I)
        x = z3.Const("xf", S)
        j = z3.Int("jf")
        n = s_len(self.seq)
        V.e.fact(z3.ForAll([x], z3.And(0 <= self.fn(x), self.fn(x) <= n,
                                       z3.Implies(self.fn(x) < n, key(s_nth(self.seq, self.fn(x))) == x)), patterns=[self.fn(x)]))
        if isinstance(seq, VList):
            V.e.fact(z3.ForAll([x], z3.Implies(self.fn(x) < n, type_fact(s_nth(self.seq, self.fn(x)), seq.et)), patterns=[self.fn(x)]))
        V.e.fact(z3.ForAll([x, j], z3.Implies(z3.And(0 <= j, j < self.fn(x)), key(s_nth(self.seq, j)) != x),
                           patterns=[z3.MultiPattern(self.fn(x), s_nth(self.seq, j))]))

    def at(self, x): return self.fn(x)
    def exists(self, x): return self.fn(x) < s_len(self.seq)
    def elem(self, x): return s_nth(self.seq, self.fn(x))


def first_hints(V, f):
    """lists holding the elements of f's sequence seen so far whose key is a string in scope"""
    def hint(c):
        out = []
        if c.seq is None or not c.seq.eq(f.seq):
            return out
        for i, x in enumerate(items_strs(c)):
            for l, v, i0 in c.lists():
                t = v.toterm()
                n0 = s_len(i0.toterm()) if isinstance(i0, VList) else z3.IntVal(0)
                out.append((f"{l} found {x}", (s_len(t) > n0) == (f.at(x) < c.k)))
                out.append((f"{l} grows", s_len(t) >= n0))
                out.append((f"{l} first {x}", z3.Implies(z3.And(s_len(t) > 0, n0 == 0), s_nth(t, 0) == f.elem(x))))
            for l, v, i0 in c.bools():
                out.append((f"{l} found {x}", bterm(v) == (f.at(x) < c.k)))
                out.append((f"!{l} found {x}", bterm(v) != (f.at(x) < c.k)))
            out.append((f"not before {x}", f.at(x) >= c.k))
        return out
    V.hint(hint)


class Fold:
    """all(s): pred holds for every element of s (defined by recursion over the sequence)"""
    _n = 0

    def __init__(self, V, pred):
        Fold._n += 1
        self.V, self.pred = V, pred
        self.fn = z3.Function(f"fold!{Fold._n}", SeqS, B)
        s = z3.Const("sf", SeqS)
        x = z3.Const("xf", PyVal)
        V.e.fact(self.fn(s_empty))
        V.e.fact(z3.ForAll([s, x], self.fn(s_snoc(s, x)) == z3.And(self.fn(s), pred(x)), patterns=[self.fn(s_snoc(s, x))]))

    def all(self, l):
        return self.fn(l.toterm() if isinstance(l, VList) else l)


def fold_hints(V, fold):
    """boolean, integer and list variables that summarise a fold over a list in scope"""
    def hint(c):
        out = []
        if c.seq is not None:
            # so far every element holds (a loop that is left early at the first that does not)
            S, k = c.seq, z3.simplify(c.k)
            for j in (k, k + 1):
                V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(S)), s_take(S, j) == s_snoc(s_take(S, j - 1), s_nth(S, j - 1))))
            V.e.fact(z3.Implies(z3.And(fold.fn(S), 0 <= k, k < s_len(S)), fold.pred(s_nth(S, k))))
            out.append(("fold so far", fold.fn(s_take(S, k))))
        for ll, lv, li in c.lists():
            A = fold.all(lv.toterm())
            for l, v, i in c.bools():
                out.append((f"{l}<->fold {ll}", bterm(v) == A))
                out.append((f"{l}<->!fold {ll}", bterm(v) != A))
            for l, v, i in c.ints():
                out.append((f"{l}==0<->fold {ll}", (iterm(v) == 0) == A))
                out.append((f"{l}==i<->fold {ll}", (iterm(v) == iterm(i)) == A))
            for l, v, i in c.lists():
                out.append((f"{l}==[]<->fold {ll}", (s_len(v.toterm()) == 0) == A))
        return out
    V.hint(hint)


def pointwise_hints(V, rels):
    """rels: name -> f(new element, old element): every list built so far relates element by element to the looped-over sequence"""
    def hint(c):
        out = []
        if c.seq is None:
            return out
        j = z3.Int("jp")
        for l, v, i in c.lists():
            t = v.toterm()
            out.append((f"#{l} = k", s_len(t) == c.k))
            for n, f in rels.items():
                el = s_nth(t, j)
                out.append((f"{l} pw {n}", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), f(el, s_nth(c.seq, j))), patterns=[el])))
        return out
    V.hint(hint)


def pointwise(t, u, f):
    """lists t and u relate element by element"""
    t = t.toterm() if isinstance(t, VList) else t
    u = u.toterm() if isinstance(u, VList) else u
    j = z3.Int("jp")
    el = s_nth(t, j)
    return z3.And(s_len(t) == s_len(u), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s_len(t)), f(el, s_nth(u, j))), patterns=[el]))


class Cat:
    """the concatenation of f(element) over the elements of seq: upto(k) covers the first k"""
    _n = 0

    def __init__(self, V, seq, f):
        Cat._n += 1
        self.V, self.seq, self.f = V, seq.toterm() if isinstance(seq, VList) else seq, f
        self.fn = z3.Function(f"cat!{Cat._n}", I, SeqS)
        V.e.fact(self.fn(z3.IntVal(0)) == s_empty)

    def upto(self, k):
        k = z3.simplify(k)
        for j in (k, k + 1):
            e = s_nth(self.seq, j - 1)
            self.V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(self.seq)), self.fn(j) == s_app(self.fn(j - 1), self.f(e))))
        return self.fn(k)

    def all(self):
        return self.upto(s_len(self.seq))


def pair_name(e):
    """name of a (name, case) pair, tuple or list"""
    return z3.If(PyVal.is_VTup2(e), PyVal.t2a(e), s_nth(PyVal.vl(e), 0))


def pair_case(e):
    return z3.If(PyVal.is_VTup2(e), PyVal.t2b(e), s_nth(PyVal.vl(e), 1))


def pair_ok(e):
    return z3.Or(PyVal.is_VTup2(e), z3.And(PyVal.is_VList(e), s_len(PyVal.vl(e)) == 2))


def cat_hints(V, *fs):
    def hint(c):
        out = []
        if c.seq is None:
            return out
        for i, f in enumerate(fs):
            if f.seq.eq(c.seq):
                t = f.upto(c.k)
                for l, v, i0 in c.lists():
                    if isinstance(i0, VList):
                        out.append((f"{l} cat{i}", v.toterm() == s_app(i0.toterm(), t)))
        return out
    V.hint(hint)
