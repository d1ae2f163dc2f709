"""Verified-with-the-client helper loops standing for builtins that iterate (their bodies are the documented
equivalents of the Python builtins)."""


def collect(it):
    r = []
    for x in it:
        r.append(x)
    return r


def filter_(f, it):
    r = []
    for x in it:
        if f is None:
            if x:
                r.append(x)
        elif f(x):
            r.append(x)
    return r


def map_(f, it):
    r = []
    for x in it:
        r.append(f(x))
    return r


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def in_loop(lst, v):
    for x in lst:
        if x is v or x == v:
            return True
    return False


def index_loop(lst, v):
    for i, x in enumerate(lst):
        if x is v or x == v:
            return i
    return None


def sum_(it, start):
    r = start
    for x in it:
        r = r + x
    return r


def join_(sep, it):
    r = ""
    first = True
    for x in it:
        if first:
            r = x
            first = False
        else:
            r = r + sep + x
    return r


def dict_update(d, o):
    for k, v in o.items():
        d[k] = v


def to_dict(it):
    d = {}
    for k, v in it:
        d[k] = v
    return d


def max_(it, key):
    best = None
    first = True
    for x in it:
        if first:
            best = x
            first = False
        elif key(x) > key(best):
            best = x
    if first:
        raise ValueError("max() arg is an empty sequence")
    return best


def min_(it, key):
    best = None
    first = True
    for x in it:
        if first:
            best = x
            first = False
        elif key(x) < key(best):
            best = x
    if first:
        raise ValueError("min() arg is an empty sequence")
    return best


def in_getitem(c, v):
    i = 0
    while True:
        try:
            x = c[i]
        except IndexError:
            return False
        if x is v or x == v:
            return True
        i += 1
