from wbook import *
import argparse
import subprocess

w = W("C20", "random trees of files and random test names over a small alphabet (names that are prefixes of other names, files beside and inside attachment "
             "directories, indexes in sub-directories, hidden directories, links); the listing and what cleaning leaves against the statement")
COMP = ["test", "tests", "a", "ab", "abc", "index", "x y", "é", "a.md", ".out", "b-1"]
LEAF = ["a", "a.md", "ab.md", "abc.md", "index.md", "index", "a.bin", "a.md.md", "x y.md", "é.md", "t.txt", ".md", "amd", "b-1.md", "cases.ndjson", "INDEX.md", "a.MD"]


def gen_name(r):
    return "/".join(pick(r, COMP) for _ in range(r.randrange(1, 4)))


def gen(r):
    names = [gen_name(r) for _ in range(r.randrange(0, 6))]
    names += [n + pick(r, ["b", "/b", ".md", "/index", "/a"]) for n in names if r.random() < .3]
    files = set()
    for _ in range(r.randrange(0, 14)):
        n = pick(r, names) if names and r.random() < .7 else gen_name(r)
        files.add(pick(r, [n + ".md", n + "/" + pick(r, LEAF), n + "/sub/" + pick(r, LEAF), n + "x.md", n + pick(r, ["", ".bin", ".md.md", "x/" + pick(r, LEAF)]),
                           n[:-1] + ".md", pick(r, LEAF), pick(r, COMP) + "/" + pick(r, LEAF), n.upper() + ".md", n + ".mdx"]))
    if r.random() < .7:
        files.add("index.md")
    if r.random() < .4:
        files.add(pick(r, COMP) + "/index.md")
    out, dirs = [], set()
    for f in sorted(files):
        ps = f.split("/")
        par = {"/".join(ps[:k]) for k in range(1, len(ps))}
        if f not in dirs and not (par & set(out)) and all(ps):
            out.append(f)
            dirs |= par
    return dict(names=sorted(set(names)), files=out, root=pick(r, ["books", "b/ooks", "/abs", "books/"]), link=r.random() < .2, empty=r.random() < .3,
                sel=pick(r, [[], [], [], ["test"], ["skip:a"], ["a"]]))


def kept(i, f):
    return f == "index.md" or any(f == n + ".md" or f.startswith(n + "/") for n in i["names"])


def tree(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


def dirs(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, fs, _ in os.walk(d) for f in fs)


def command(i, root, flag):
    ts = Tests([(n, lambda t: None) for n in i["names"]])
    p = argparse.ArgumentParser()
    ts.setup_parser(p)
    args = p.parse_args([flag])
    args.test_cases = i["sel"] or "*"
    with quiet() as out:
        rc = ts.exec_parsed(root, args)
    return rc, out.getvalue().split("\n")


def run(i):
    with scratch() as d:
        root = d + "/abs" if i["root"] == "/abs" else i["root"]
        for f in i["files"]:
            write(root + "/" + f, f)
        os.makedirs(root, exist_ok=True)
        if i["empty"]:
            os.makedirs(root + "/emptydir", exist_ok=True)
        write("outside.md", "x")
        write("outside/a.md", "x")
        if i["link"]:
            os.symlink(d + "/outside", root + "/linked")
        real = [(os, n, getattr(os, n)) for n in ("remove", "unlink", "rmdir", "removedirs")] + [(shutil, "rmtree", shutil.rmtree)]
        here = os.path.realpath(d)

        def guarded(f):
            def g(p, *a, **k):
                q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
                check(q.startswith(os.path.realpath(root) + "/"), f"cleaning removes {p}, which is not under the books directory")
                return f(p, *a, **k)
            return g
        garbage = sorted(f for f in i["files"] if not kept(i, f))
        for m, n, f in real:
            setattr(m, n, guarded(f))
        try:
            before, bdirs = tree(d), dirs(d)
            rc, out = command(i, root, "--garbage")
            check(tree(d) == before and dirs(d) == bdirs, "listing the garbage changes the files")
            check(sorted(l for l in out if l) == sorted(os.path.join(root, f) for f in garbage),
                  f"the listing is {sorted(l for l in out if l)}, expected {garbage}; tests {i['names']}")
            rc, out = command(i, root, "--clean")
        finally:
            for m, n, f in real:
                setattr(m, n, f)
        rel = os.path.relpath(root, d)
        want = sorted(f for f in before if f not in {rel + "/" + g for g in garbage})
        check(tree(d) == want, f"after cleaning there is {tree(d)}, expected {want}; tests {i['names']}")
        for f in i["files"]:
            if kept(i, f):
                check(read(root + "/" + f) == f, f"cleaning changed {f}")


w.case("trees", gen, run, 20)
w.main()
