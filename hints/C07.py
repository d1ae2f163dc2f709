import z3
from pyvc.core import *
from pyvc.terms import *
from pyvc.lib import nl_lines, uf, enum_name, real_text, concat, mkstr, pystr_escape
from vclib import *

TAB, NL = z3.StringVal("\t"), z3.StringVal(pystr_escape("\n"))
split_f = uf("str_split", S, S, SeqS)
strip_f = uf("str_strip:None", S, S)
valid_f = uf("float_valid", S, B)
float_f = uf("float_of_str", S, R)


def good(Res):
    """a line that holds a record"""
    def f(e):
        line = PyVal.vs(e)
        ps = split_f(line, TAB)
        r = PyVal.vs(s_nth(ps, 1))
        return z3.And(z3.Length(strip_f(line)) > 0, s_len(ps) >= 3, z3.Or(*[r == z3.StringVal(m.name) for m in Res]), valid_f(PyVal.vs(s_nth(ps, 2))))
    return f


def record(Res):
    def f(e):
        ps = split_f(PyVal.vs(e), TAB)
        r = PyVal.vs(s_nth(ps, 1))
        v = pack(list(Res)[-1])
        for m in Res:
            v = z3.If(r == z3.StringVal(m.name), pack(m), v)
        return PyVal.VTup3(s_nth(ps, 0), v, PyVal.VReal(float_f(PyVal.vs(s_nth(ps, 2)))))
    return f


def line_of(Res, e):
    """the text of a record, without the line feed"""
    return concat([PyVal.vs(PyVal.t3a(e)), TAB, enum_name(Res, PyVal.ve(PyVal.t3b(e))), TAB, sterm(real_text(PyVal.vr(PyVal.t3c(e))))])


def record_lines(V, Res, recs):
    """the list of the texts of recs; its elements are read in their structured form"""
    lines = V.list(StrT, "lines")
    L, n = lines.term, recs.term
    V.e.fact(s_len(L) == s_len(n))
    e = V.e

    def item(k):
        el = s_nth(n, k)
        e.fact(s_mem(n, el))
        e.fact(type_fact(el, recs.et))
        nm = PyVal.vs(PyVal.t3a(el))
        for c in (TAB, NL, z3.StringVal(pystr_escape("\r"))):
            e.assume(z3.Not(z3.Contains(nm, c)))
        r = PyVal.t3b(el)
        for m in Res:
            if e.branch(r == pack(m)):
                return mkstr(concat([nm, TAB, z3.StringVal(m.name), TAB, sterm(real_text(PyVal.vr(PyVal.t3c(el))))]))
        raise Stop()
    V.itemview(lines, item)
    return lines


class Stop(Exception):
    pass


def copy_hints(V, recs):
    """lists that equal the part of recs read so far"""
    def hint(c):
        out = []
        if c.seq is None:
            return out
        k = z3.simplify(c.k)
        V.e.fact(z3.Implies(z3.And(k >= 0, k < s_len(recs.term)), s_take(recs.term, k + 1) == s_snoc(s_take(recs.term, k), s_nth(recs.term, k))))
        kk = k - 1
        V.e.fact(z3.Implies(z3.And(kk >= 0, kk < s_len(recs.term)), s_take(recs.term, k) == s_snoc(s_take(recs.term, kk), s_nth(recs.term, kk))))
        for l, v, i in c.lists():
            out.append((f"{l} copy", v.toterm() == s_take(recs.term, k)))
        return out
    V.hint(hint)


def text_hints(V, path, enc):
    V.e.fact(nl_lines(z3.StringVal("")) == s_empty)

    def hint(c):
        out = []
        t = PyVal.vs(z3.Select(V.fs.cell.term, path))
        isstr = PyVal.is_VStr(z3.Select(V.fs.cell.term, path))
        out.append(("text file", isstr))
        out.append(("terminated", z3.Or(t == z3.StringVal(""), z3.SuffixOf(NL, t))))
        if c.seq is not None and enc.seq.eq(c.seq):
            out.append(("lines", nl_lines(t) == enc.upto(c.k)))
        return out
    V.hint(hint)
