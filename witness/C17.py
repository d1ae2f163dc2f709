from wlib import *
from whttp import *

w = W("C17", "random requests of requests, httpx and async httpx with random header names, spellings and secret values, all ignore settings, hidden and kept details, "
             "repeated and concurrent requests, default and custom functions; what is stored and shown is searched for the secrets, and the identities of requests that "
             "differ in one header are compared; non-trivial: at least one header of its own")

NAMES = ["Authorization", "X-Api-Key", "x-trace", "COOKIE2", "Date-X", "X-Plain", "X-Plain-2"]
URLS = ["http://h.invalid/a", "http://h.invalid/b?x=1"]


def spell(r, n):
    return pick(r, [n, n.lower(), n.upper(), n.title(), n.swapcase()])


def gen(r):
    names = r.sample(NAMES, r.randrange(0, len(NAMES) + 1))
    ign = pick(r, [True, True, "default", False, "list", "list", "list", "list"])
    if ign == "list":
        ign = [spell(r, n) for n in r.sample(NAMES, r.randrange(0, 5))] + r.sample(["User-Agent", "accept", "absent"], r.randrange(0, 2))
    return dict(lib=pick(r, LIBS), ignore=ign, hide=pick(r, [True, True, False, "default"]), names=[spell(r, n) for n in names], kind=pick(r, ["list", "tuple", "set"]),
                reqs=[[pick(r, ["GET", "POST"]), pick(r, URLS), r.random() < .5] for _ in range(r.randrange(1, 4))], repeats=r.randrange(1, 4), gather=r.random() < .3,
                other=pick(r, names) if names else None, hash=pick(r, ["default", "default", "order"]), encode=pick(r, ["default", "constant"]), seed=r.randrange(10 ** 6))


def settings(i):
    k = {}
    if i["hide"] != "default":
        k["lose_request_details"] = i["hide"]
    if i["ignore"] != "default":
        k["ignore_headers"] = i["ignore"] if isinstance(i["ignore"], bool) else {"list": list, "tuple": tuple, "set": set}[i["kind"]](i["ignore"])
    if i["hash"] == "order":
        k["json_to_hash"] = lambda o: json.dumps({a: b for a, b in o.items() if a != "order"}, sort_keys=True)[:0] + sha(json.dumps({a: b for a, b in o.items() if a != "order"}, sort_keys=True))
    if i["encode"] == "constant":
        k["encode_body"] = lambda b, u, m: "body:" + str(len(b))
    return k


def sha(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()


def run_once(d, i, mode, requests_):
    t = Run(d, MODES[mode])
    with World(lambda n: (200, {"X-Answer": str(n)}, b"answer %d" % n)) as world:
        got, prepared = [], []

        async def act(t):
            c = Client(i["lib"])
            c.open()
            try:
                prepared.extend(c.prepared(q) for q in requests_)
                if i["gather"] and i["lib"] == "httpx-async":
                    got.extend(await asyncio.gather(*[c.one(q) for q in requests_]))
                else:
                    for q in requests_:
                        got.append(await c.one(q))
            finally:
                await c.close()
        asyncio.run(decorator(i["lib"])(**settings(i))(act)(t))
        sent = len(world.sent)
    with open(stored_file(d, i["lib"])) as f:
        text = f.read()
    return t, got, prepared, sent, text


def is_ignored(i, name):
    return i["ignore"] in (True, "default") or (i["ignore"] is not False and name.lower() in [x.lower() for x in i["ignore"]])


def run(i):
    d = tempfile.mkdtemp(prefix="vc17")
    try:
        headers = {n: "secret-%d-%d" % (k, i["seed"]) for k, n in enumerate(i["names"])}
        body = "secret-body-%d" % i["seed"]
        reqs = []
        for k, (m, u, b) in enumerate(i["reqs"]):
            reqs += [[m, u, headers, body + str(k) if b else None]] * i["repeats"]
        t, got, prepared, sent, text = run_once(d, i, "refresh", reqs)
        check(sent == len(reqs), f"{len(reqs)} requests were sent {sent} times")
        stored = json.loads(text)
        check(len(stored) == len(reqs), f"{len(stored)} recordings for {len(reqs)} requests")
        shown = "\n".join(t.text)
        hide = i["hide"] in (True, "default")
        for n, v in headers.items():
            if is_ignored(i, n) or hide:
                check(v not in text and v not in shown, f"the value of the header {n} is stored: {text[:500]}")
        if hide or i["encode"] == "constant":
            import base64
            check(body not in text and base64.b64encode(body.encode())[:12].decode() not in text, f"the body is stored: {text[:500]}")
        for e in stored.values():
            q = e["request"]
            if hide:
                check("headers" not in q and "body" not in q, f"details are hidden, stored {q}")
            elif i["ignore"] in (True, "default"):
                check("headers" not in q, f"all headers are ignored, stored {q}")
            else:
                h = {k.lower(): v for k, v in q["headers"].items()}
                for k in h:
                    check(not is_ignored(i, k), f"header {k} is ignored and stored: {q}")
                ok = [p for p in prepared if p[0] == q["method"] and p[1] == q["url"] and {k: v for k, v in p[2].items() if not is_ignored(i, k)} == h]
                check(ok, f"the stored headers {h} are of no request made: {prepared}")
        accept(d)
        # the same requests, one header has another value
        if i["other"] is not None:
            name = next(n for n in headers if n.lower() == i["other"].lower())
            changed = [[m, u, {**h, name: "changed"}, b] for m, u, h, b in reqs]
            t2, got2, _, sent2, text2 = run_once(d, i, "replay", changed)
            check(sent2 == 0, "a request was sent in replay")
            if is_ignored(i, name):
                check(all(g[0] == "response" for g in got2), f"the ignored header {name} influences the identity: {got2}")
                check([g[3] for g in got2] == [g[3] for g in got] or i["gather"], f"other responses: {got2}, {got}")
            else:
                check(all(g[0] == "error" for g in got2), f"the header {name} does not influence the identity: {got2}")
    finally:
        shutil.rmtree(d)


w.case("headers", gen, run, 10)
w.main()
