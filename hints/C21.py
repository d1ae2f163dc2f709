import z3
from pyvc.core import *
from pyvc.terms import *
from pyvc.lib import uf, lines_f
from vclib import *
from hints.C14 import opt, entry

strip_f = uf("str_strip:None", S, S)
lower_f = uf("str_lower", S, S)
EQ = z3.StringVal("=")


def value_of(v):
    """'1' and '0' mean true and false, other values are kept"""
    return z3.If(v == z3.StringVal("1"), PyVal.VBool(z3.BoolVal(True)), z3.If(v == z3.StringVal("0"), PyVal.VBool(z3.BoolVal(False)), PyVal.VStr(v)))


def setting(line):
    """(is a setting, its key, its value text)"""
    st = strip_f(line)
    i = z3.IndexOf(st, EQ, z3.IntVal(0))
    is_s = z3.And(z3.Not(z3.PrefixOf(z3.StringVal("#"), line)), z3.Length(st) > 0)
    return is_s, z3.SubString(st, 0, i), z3.SubString(st, i + 1, z3.Length(st) - i - 1)


class LastSetting:
    """what the first k lines say about the key, over a given start value"""

    def __init__(self, V, lines, key, start):
        self.V, self.lines, self.key = V, lines, key
        self.fn = z3.Function("settled", I, PyVal)
        V.e.fact(self.fn(z3.IntVal(0)) == start)

    def upto(self, k):
        k = z3.simplify(k)
        for j in (k, k + 1):
            is_s, key, val = setting(PyVal.vs(s_nth(self.lines, j - 1)))
            self.V.e.fact(z3.Implies(z3.And(j >= 1, j <= s_len(self.lines)),
                                     self.fn(j) == z3.If(z3.And(is_s, key == self.key), value_of(val), self.fn(j - 1))))
        return self.fn(k)


def last_hints(V, last, K):
    def hint(c):
        out = []
        if c.seq is None or not c.seq.eq(last.lines):
            return out
        for l, v, i in c.dicts():
            if not l.startswith("M:"):
                out.append((f"{l} as the lines say", opt(v.toterm(), K) == last.upto(c.k)))
        return out
    V.hint(hint)


def env_var_hints(V, K, E, has, value):
    """E: the only environment variable for the setting K"""
    def hint(c):
        out = []
        keys = c.seq if c.seq is not None else c.loop.base
        if keys is None:
            return out
        keys = named(V, keys)
        take_facts(V, keys, c.k)
        seen = z3.And(has, s_mem(s_take(keys, c.k), E))
        for l, v, i in c.dicts():
            if v is V.environ or l.startswith("M:"):
                continue
            ini = entry(c, v)
            if ini is None:
                continue
            out.append((f"{l} has the environment's value", z3.Implies(seen, opt(v.toterm(), K) == value)))
            out.append((f"{l} has the value from before", z3.Implies(z3.Not(seen), opt(v.toterm(), K) == opt(ini, K))))
        return out
    V.hint(hint)


from hints.run import take_facts


def only_variable(V, env, k, ev):
    """no environment variable except ev names the setting k; result: ev exists and names it"""
    P = z3.StringVal("BOOKTEST_")

    def matches(x):
        return z3.And(z3.PrefixOf(P, x), lower_f(z3.SubString(x, 9, z3.Length(x) - 9)) == k)
    x = z3.Const("xv", PyVal)
    E = PyVal.VStr(ev)
    has = z3.And(t_mem(d_dom(env), E), matches(ev))
    V.e.add(z3.ForAll([x], z3.Implies(z3.And(t_mem(d_dom(env), x), matches(PyVal.vs(x))), z3.And(has, x == E)), patterns=[t_mem(d_dom(env), x)]))
    return has


FLAGS = [("i", "interactive"), ("I", "always_interactive"), ("v", "verbose"), ("L", "print_logs"), ("f", "fail_fast"), ("c", "continue"),
         ("r", "refresh_sources"), ("u", "update"), ("a", "accept"), ("p", "parallel"), ("s", "complete_snapshots"), ("S", "refresh_snapshots"),
         ("cov", "coverage"), ("md_viewer", "md_viewer"), ("diff_tool", "diff_tool")]
VALUED = ("p", "md_viewer", "diff_tool")


class Parsed:
    """the parsed command line"""
    _vc_inst = True


def command_line(V, n, rest):
    """flag n is arbitrary, the others are all given or all not given; result: (parsed, [(setting, given, value)])"""
    p = Parsed()
    p.cmd, p.test_cases = None, V.list(StrT, "selection")
    out = []
    for j, (f, s) in enumerate(FLAGS):
        if j == n:
            if f == "p":
                v = V.int("flag " + f)
                given, val = v.t != 0, PyVal.VInt(v.t)
            elif f in VALUED:
                v = V.str("flag " + f)
                given, val = z3.Length(v.t) > 0, PyVal.VStr(v.t)
            else:
                v = V.bool("flag " + f)
                given, val = v.t, PyVal.VBool(z3.BoolVal(True))
        else:
            v = (("tool " + f) if f in VALUED and f != "p" else 4 if f == "p" else True) if rest else (None if f in VALUED and f != "p" else False)
            given, val = z3.BoolVal(bool(rest)), pack(v)
        setattr(p, f, v)
        out.append((s, given, val))
    return p, out


def look(D, x):
    v, D = peel(D, x)
    return v if v is not None else opt(D, x)


def effective(flags, n, K, extra, base):
    """n: position of the flag for the setting K, None when no flag sets it"""
    r = z3.If(t_mem(d_dom(extra), K), d_get(extra, K), opt(base, K))
    if n is not None:
        s, given, val = flags[n]
        r = z3.If(given, val, r)
    return r


def the_setting(V, n, other):
    """the setting of flag n, or an arbitrary setting that no flag sets"""
    if not other:
        return PyVal.VStr(z3.StringVal(FLAGS[n][1]))
    k = V.str("setting")
    for f, s in FLAGS:
        V.e.assume(k.t != z3.StringVal(s))
    return PyVal.VStr(k.t)
