from wlib import *
from booktest.cache import LruCache, NoCache

w = W("C13", "random operation sequences on caches of size 0..5 over up to 8 keys, against a recency list; non-trivial: the sequence writes more keys than the size")


def gen(r):
    size = r.randrange(0, 6)
    keys = "abcdefgh"[:r.randrange(1, 9)]
    return [size, [[pick(r, ["set", "set", "get", "in", "len"]), pick(r, keys), pick(r, [None, 0, 1, 2, 3, "", "x", False])] for _ in range(r.randrange(1, 40))]]


def run(i):
    size, ops = i
    c = LruCache(size)
    rec, val = [], {}
    for n, (op, k, v) in enumerate(ops):
        if op == "set":
            c[k] = v
            if k in rec:
                rec.remove(k)
            rec.append(k)
            val[k] = v
            rec = rec[-size:] if size else []
        elif op == "get":
            got = c[k]
            if k in rec:
                check(got is val[k] or got == val[k], f"op {n}: read {k} gives {got!r}, last written {val[k]!r}")
                rec.remove(k)
                rec.append(k)
            else:
                check(got is None, f"op {n}: read of {k}, not held, gives {got!r}")
        check(len(c) == len(rec), f"op {n}: {len(c)} entries, expected {len(rec)}: {rec}")
        for x in "abcdefgh":
            check((x in c) == (x in rec), f"op {n}: {x} held: {x in c}, expected {x in rec}")
    for k in list(rec):
        check(c[k] == val[k], f"value of {k}")


def run_no(i):
    c = NoCache()
    for op, k, v in i[1]:
        c[k] = v
        check(len(c) == 0 and c[k] is None and k not in c, "NoCache holds something")


w.case("lru", gen, run, 50)
w.case("nocache", gen, run_no, 2)
w.main()
