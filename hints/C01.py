import z3
from pyvc.core import *
from pyvc.terms import *
from vclib import *


def prefix_hints(V, text, joined):
    """integers in scope that count how much of the text has been consumed"""
    t = text.t

    def hint(c):
        out = []
        j = sterm(joined.v)
        n = z3.Length(t)
        for l, v, i in c.ints():
            k = iterm(v)
            out.append((f"{l} in text", z3.And(0 <= k, k <= n)))
            out.append((f"joined = text[:{l}]", j == z3.SubString(t, 0, k)))
            for l2, v2, i2 in c.ints():
                if l2 != l:
                    out.append((f"{l}<={l2}", k <= iterm(v2)))
                    out.append((f"{l}<{l2}", k < iterm(v2)))
        return out
    V.hint(hint)


def splice(V, text, joined, tok):
    """lemma of string concatenation, for the piece at hand"""
    t, a = text.t, z3.Length(sterm(joined.v))
    b = z3.Length(sterm(tok))
    V.e.fact(z3.Implies(z3.And(sterm(joined.v) == z3.SubString(t, 0, a), a + b <= z3.Length(t), sterm(tok) == z3.SubString(t, a, b)),
                        z3.Concat(sterm(joined.v), sterm(tok)) == z3.SubString(t, 0, a + b)))
    V.e.fact(z3.Implies(sterm(joined.v) == z3.SubString(t, 0, z3.Length(t)), sterm(joined.v) == t))


def look_hints(V, items, at, k):
    """a one-item lookahead: variables that hold the item at the client's position, flags that say whether there is one"""
    def hint(c):
        out = []
        n = s_len(items.term)
        K, A = iterm(k.v), iterm(at.v)
        out.append(("at in items", z3.And(0 <= A, A <= n)))
        out.append(("k<=n", K <= n))
        out.append(("k>=0", K >= 0))
        out.append(("at = k+1 or both at the end", z3.Or(A == K + 1, z3.And(K == n, A == n))))
        for l, v, i in c.bools():
            out.append((f"{l}<->more", bterm(v) == (K < n)))
            out.append((f"{l}<->no more", bterm(v) == (K >= n)))
        for l in c.labels():
            try:
                v = c.val(l)
                if isinstance(v, Tracked):
                    continue
                p = pack(v)
            except (Exception, Unsupported):
                continue
            out.append((f"{l} is next", z3.Implies(K < n, p == s_nth(items.term, K))))
        return out
    V.hint(hint)
