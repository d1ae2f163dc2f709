"""Logical universe of the verifier: one datatype of Python values, plus first-order theories of
sequences, sets and maps axiomatized with triggers.  Integers are mathematical (as in Python);
floats are mathematical reals (assumption, listed in the evidence)."""
import z3

ObjS = z3.DeclareSort("Obj")
SeqS = z3.DeclareSort("Seq")
SetS = z3.DeclareSort("Set")
DictS = z3.DeclareSort("Dict")

_P = z3.Datatype("PyVal")
_P.declare("VNone")
_P.declare("VBool", ("vb", z3.BoolSort()))
_P.declare("VInt", ("vi", z3.IntSort()))
_P.declare("VReal", ("vr", z3.RealSort()))
_P.declare("VStr", ("vs", z3.StringSort()))
_P.declare("VBytes", ("vbs", z3.StringSort()))
_P.declare("VEnum", ("ve", z3.IntSort()))
_P.declare("VTup0")
_P.declare("VTup1", ("t1a", _P))
_P.declare("VTup2", ("t2a", _P), ("t2b", _P))
_P.declare("VTup3", ("t3a", _P), ("t3b", _P), ("t3c", _P))
_P.declare("VTup4", ("t4a", _P), ("t4b", _P), ("t4c", _P), ("t4d", _P))
_P.declare("VList", ("vl", SeqS))
_P.declare("VSet", ("vset", SetS))
_P.declare("VDict", ("vd", DictS))
_P.declare("VObj", ("vo", ObjS))
PyVal = _P.create()

I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
R = z3.RealSort()

# sequences
s_len = z3.Function("s_len", SeqS, I)
s_nth = z3.Function("s_nth", SeqS, I, PyVal)
s_empty = z3.Const("s_empty", SeqS)
s_snoc = z3.Function("s_snoc", SeqS, PyVal, SeqS)
s_app = z3.Function("s_app", SeqS, SeqS, SeqS)
s_take = z3.Function("s_take", SeqS, I, SeqS)
s_drop = z3.Function("s_drop", SeqS, I, SeqS)
s_mem = z3.Function("s_mem", SeqS, PyVal, B)
s_idx = z3.Function("s_idx", SeqS, PyVal, I)
s_rem = z3.Function("s_rem", SeqS, PyVal, SeqS)      # remove the (first) occurrence
s_upd = z3.Function("s_upd", SeqS, I, PyVal, SeqS)
# sets
t_mem = z3.Function("t_mem", SetS, PyVal, B)
t_empty = z3.Const("t_empty", SetS)
t_add = z3.Function("t_add", SetS, PyVal, SetS)
t_rem = z3.Function("t_rem", SetS, PyVal, SetS)
t_union = z3.Function("t_union", SetS, SetS, SetS)
t_inter = z3.Function("t_inter", SetS, SetS, SetS)
t_diff = z3.Function("t_diff", SetS, SetS, SetS)
t_card = z3.Function("t_card", SetS, I)
t_wit = z3.Function("t_wit", SetS, PyVal)
t_ofseq = z3.Function("t_ofseq", SeqS, SetS)
t_ext = z3.Function("t_ext", SetS, SetS, PyVal)
t_eqq = z3.Function("t_eqq", SetS, SetS, B)
t_seq = z3.Function("t_seq", SetS, SeqS)            # iteration order of a set
s_uniq = z3.Function("s_uniq", SeqS, B)             # no duplicates
s_rev = z3.Function("s_rev", SeqS, SeqS)
s_eqq = z3.Function("s_eqq", SeqS, SeqS, B)
s_ext = z3.Function("s_ext", SeqS, SeqS, I)
# dictionaries: domain, value map and insertion order
d_dom = z3.Function("d_dom", DictS, SetS)
d_get = z3.Function("d_get", DictS, PyVal, PyVal)
d_ord = z3.Function("d_ord", DictS, SeqS)
d_empty = z3.Const("d_empty", DictS)
d_set = z3.Function("d_set", DictS, PyVal, PyVal, DictS)
d_del = z3.Function("d_del", DictS, PyVal, DictS)
d_end = z3.Function("d_end", DictS, PyVal, DictS)      # move_to_end
d_ext = z3.Function("d_ext", DictS, DictS, PyVal)


def axioms():
    s, t, u = z3.Consts("s t u", SeqS)
    a, b = z3.Consts("a b", SetS)
    d, e = z3.Consts("d e", DictS)
    x, y, z = z3.Consts("x y z", PyVal)
    i, j = z3.Ints("i j")
    F = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=[p if z3.is_pattern(p) else p for p in pats])
    A = [
        F([s], s_len(s) >= 0, s_len(s)),
        s_len(s_empty) == 0,
        F([s], z3.Implies(s_len(s) == 0, s == s_empty), s_len(s)),
        F([s, x], s_len(s_snoc(s, x)) == s_len(s) + 1, s_snoc(s, x)),
        F([s, x, i], s_nth(s_snoc(s, x), i) == z3.If(i == s_len(s), x, s_nth(s, i)), s_nth(s_snoc(s, x), i)),
        F([s, t], s_len(s_app(s, t)) == s_len(s) + s_len(t), s_app(s, t)),
        F([s, t, i], s_nth(s_app(s, t), i) == z3.If(i < s_len(s), s_nth(s, i), s_nth(t, i - s_len(s))),
          s_nth(s_app(s, t), i)),
        F([s], s_app(s, s_empty) == s, s_app(s, s_empty)),
        F([s], s_app(s_empty, s) == s, s_app(s_empty, s)),
        F([s, t, x], s_app(s, s_snoc(t, x)) == s_snoc(s_app(s, t), x), s_app(s, s_snoc(t, x))),
        F([s, t, u], s_app(s_app(s, t), u) == s_app(s, s_app(t, u)), s_app(s_app(s, t), u)),
        F([y], z3.Not(s_mem(s_empty, y)), s_mem(s_empty, y)),
        F([s, x, y], s_mem(s_snoc(s, x), y) == z3.Or(x == y, s_mem(s, y)), s_mem(s_snoc(s, x), y)),
        F([s, t, y], s_mem(s_app(s, t), y) == z3.Or(s_mem(s, y), s_mem(t, y)), s_mem(s_app(s, t), y)),
        F([s, y], z3.Implies(s_mem(s, y), z3.And(s_idx(s, y) >= 0, s_idx(s, y) < s_len(s),
                                                 s_nth(s, s_idx(s, y)) == y)), s_mem(s, y)),
        F([s, i], z3.Implies(z3.And(0 <= i, i <= s_len(s)), s_len(s_take(s, i)) == i), s_take(s, i)),
        F([s, i, j], z3.Implies(z3.And(0 <= j, j < i, i <= s_len(s)), s_nth(s_take(s, i), j) == s_nth(s, j)),
          s_nth(s_take(s, i), j)),
        F([s, i], z3.Implies(i == 0, s_take(s, i) == s_empty), s_take(s, i)),
        F([s, i], z3.Implies(i == s_len(s), s_take(s, i) == s), s_take(s, i)),
        F([s, x, i], z3.Implies(z3.And(0 <= i, i <= s_len(s)), s_take(s_snoc(s, x), i) == s_take(s, i)),
          s_take(s_snoc(s, x), i)),
        F([s, i], z3.Implies(z3.And(0 <= i, i <= s_len(s)), s_len(s_drop(s, i)) == s_len(s) - i), s_drop(s, i)),
        F([s, i, j], z3.Implies(z3.And(0 <= i, 0 <= j, i + j < s_len(s)), s_nth(s_drop(s, i), j) == s_nth(s, i + j)),
          s_nth(s_drop(s, i), j)),
        F([s, i], z3.Implies(i == 0, s_drop(s, i) == s), s_drop(s, i)),
        # removal of a present element of a duplicate-free sequence (used for ordered maps only)
        F([s, x], s_len(s_rem(s, x)) == z3.If(s_mem(s, x), s_len(s) - 1, s_len(s)), s_rem(s, x)),
        F([s, x, y], z3.Implies(x != y, s_mem(s_rem(s, x), y) == s_mem(s, y)), s_mem(s_rem(s, x), y)),
        F([s, x, i], z3.Implies(z3.And(s_mem(s, x), 0 <= i, i < s_len(s) - 1),
                                s_nth(s_rem(s, x), i) == s_nth(s, z3.If(i < s_idx(s, x), i, i + 1))), s_nth(s_rem(s, x), i)),
        F([s, x], z3.Implies(s_uniq(s), z3.And(s_uniq(s_rem(s, x)), z3.Not(s_mem(s_rem(s, x), x)))), z3.MultiPattern(s_uniq(s), s_rem(s, x))),
        F([s, x], z3.Implies(z3.And(s_uniq(s), z3.Not(s_mem(s, x))), s_uniq(s_snoc(s, x))), s_uniq(s_snoc(s, x))),
        s_uniq(s_empty),
        F([s, i, x], s_len(s_upd(s, i, x)) == s_len(s), s_upd(s, i, x)),
        F([s, i, x, j], z3.Implies(z3.And(0 <= i, i < s_len(s)), s_nth(s_upd(s, i, x), j) == z3.If(i == j, x, s_nth(s, j))),
          s_nth(s_upd(s, i, x), j)),
        # sets
        F([x], z3.Not(t_mem(t_empty, x)), t_mem(t_empty, x)),
        F([a, x, y], t_mem(t_add(a, x), y) == z3.Or(x == y, t_mem(a, y)), t_mem(t_add(a, x), y)),
        F([a, x, y], t_mem(t_rem(a, x), y) == z3.And(x != y, t_mem(a, y)), t_mem(t_rem(a, x), y)),
        F([a, b, y], t_mem(t_union(a, b), y) == z3.Or(t_mem(a, y), t_mem(b, y)), t_mem(t_union(a, b), y)),
        F([a, b, y], t_mem(t_inter(a, b), y) == z3.And(t_mem(a, y), t_mem(b, y)), t_mem(t_inter(a, b), y)),
        F([a, b, y], t_mem(t_diff(a, b), y) == z3.And(t_mem(a, y), z3.Not(t_mem(b, y))), t_mem(t_diff(a, b), y)),
        F([s, y], t_mem(t_ofseq(s), y) == s_mem(s, y), t_mem(t_ofseq(s), y)),
        F([a], z3.And(t_card(a) >= 0, z3.Implies(t_card(a) > 0, t_mem(a, t_wit(a)))), t_card(a)),
        F([a, x], z3.Implies(t_mem(a, x), t_card(a) > 0), z3.MultiPattern(t_mem(a, x), t_card(a))),
        t_card(t_empty) == 0,
        F([a, b], z3.Implies(t_mem(a, t_ext(a, b)) == t_mem(b, t_ext(a, b)), a == b), t_eqq(a, b)),
        F([a, y], s_mem(t_seq(a), y) == t_mem(a, y), s_mem(t_seq(a), y)),
        F([a], z3.And(s_uniq(t_seq(a)), s_len(t_seq(a)) == t_card(a)), t_seq(a)),
        F([s, i], z3.Implies(z3.And(s_uniq(s), 0 <= i, i < s_len(s)), s_idx(s, s_nth(s, i)) == i),
          z3.MultiPattern(s_uniq(s), s_nth(s, i))),
        F([s, t], z3.Implies(z3.And(s_len(s) == s_len(t),
                                    z3.Implies(z3.And(0 <= s_ext(s, t), s_ext(s, t) < s_len(s)),
                                               s_nth(s, s_ext(s, t)) == s_nth(t, s_ext(s, t)))), s == t), s_eqq(s, t)),
        F([s], s_len(s_rev(s)) == s_len(s), s_rev(s)),
        F([s, i], z3.Implies(z3.And(0 <= i, i < s_len(s)), s_nth(s_rev(s), i) == s_nth(s, s_len(s) - 1 - i)),
          s_nth(s_rev(s), i)),
        F([s, y], s_mem(s_rev(s), y) == s_mem(s, y), s_mem(s_rev(s), y)),
        F([d, y], s_mem(d_ord(d), y) == t_mem(d_dom(d), y), s_mem(d_ord(d), y), z3.MultiPattern(t_mem(d_dom(d), y), d_ord(d))),
        F([d], z3.And(s_uniq(d_ord(d)), s_len(d_ord(d)) == t_card(d_dom(d))), d_ord(d)),
        F([a, x], t_card(t_add(a, x)) == z3.If(t_mem(a, x), t_card(a), t_card(a) + 1), t_card(t_add(a, x))),
        F([a, x], t_card(t_rem(a, x)) == z3.If(t_mem(a, x), t_card(a) - 1, t_card(a)), t_card(t_rem(a, x))),
        # dictionaries
        F([y], z3.Not(t_mem(d_dom(d_empty), y)), t_mem(d_dom(d_empty), y)),
        d_dom(d_empty) == t_empty, d_ord(d_empty) == s_empty,
        F([d, x, z], d_dom(d_set(d, x, z)) == t_add(d_dom(d), x), d_set(d, x, z)),
        F([d, x, z, y], d_get(d_set(d, x, z), y) == z3.If(x == y, z, d_get(d, y)), d_get(d_set(d, x, z), y)),
        F([d, x, z], d_ord(d_set(d, x, z)) == z3.If(t_mem(d_dom(d), x), d_ord(d), s_snoc(d_ord(d), x)), d_set(d, x, z)),
        F([d, x], d_dom(d_del(d, x)) == t_rem(d_dom(d), x), d_del(d, x)),
        F([d, x, y], d_get(d_del(d, x), y) == d_get(d, y), d_get(d_del(d, x), y)),
        F([d, x], d_ord(d_del(d, x)) == s_rem(d_ord(d), x), d_del(d, x)),
        F([d, x], d_dom(d_end(d, x)) == d_dom(d), d_end(d, x)),
        F([d, x, y], d_get(d_end(d, x), y) == d_get(d, y), d_get(d_end(d, x), y)),
        F([d, x], z3.Implies(t_mem(d_dom(d), x), d_ord(d_end(d, x)) == s_snoc(s_rem(d_ord(d), x), x)), d_end(d, x)),
    ]
    return A


# uninterpreted string functions / predicates (assumed contracts on str methods)
_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


truthy_other = z3.Function("truthy_other", PyVal, B)


def truthy_term(t):
    P = PyVal
    return z3.If(P.is_VNone(t), z3.BoolVal(False),
           z3.If(P.is_VBool(t), P.vb(t),
           z3.If(P.is_VInt(t), P.vi(t) != 0,
           z3.If(P.is_VStr(t), z3.Length(P.vs(t)) > 0,
           z3.If(P.is_VList(t), s_len(P.vl(t)) > 0,
           z3.If(P.is_VEnum(t), z3.BoolVal(True), truthy_other(t)))))))
