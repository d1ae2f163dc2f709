from wlib import *
from whttp import *

w = W("C16", "random recordings and request sequences of requests, httpx and async httpx (also concurrent and streamed), in replay, complete and refresh mode, "
             "text and binary bodies, failing transports, default and custom identity and encoding functions; the recordings written are used by the next run; "
             "transports are stand-ins that count; non-trivial: at least one request")

BODIES = [b"", b"ok", "ä€\n".encode(), b"\xff\xfe\x00\x80", bytes(range(256)), b'{"a": 1}', b"a\r\nb", "ä".encode("latin-1"), b"x" * 5000]
HEADERS = [{}, {"Content-Type": "text/plain; charset=utf-8"}, {"Content-Type": "application/json"}, {"Content-Type": "text/plain; charset=iso-8859-1", "X-K": "v"},
           {"Content-Encoding": "gzip"}, {"X-Empty": ""}]
URLS = ["http://h.invalid/a", "http://h.invalid/b?x=1", "https://h.invalid/a"]
HASHES = {"default": None, "url": lambda o: "u" + o["url"], "order": lambda o: o["url"] + "#%d" % o.get("order", 0),
          "details": lambda o: json.dumps({k: v for k, v in o.items() if k != "order"}, sort_keys=True)}
ENCODES = {"default": None, "constant": lambda b, u, m: "same"}


def gen_request(r):
    return [pick(r, ["GET", "POST", "PUT"]), pick(r, URLS), {k: pick(r, ["1", "2"]) for k in ("X-A", "Authorization") if r.random() < .3},
            None if r.random() < .5 else pick(r, ["", "a", "b", "ä"])]


def gen(r):
    pool = [gen_request(r) for _ in range(r.randrange(1, 4))]
    reqs = lambda: [[pick(r, pool), r.random() < .2] for _ in range(r.randrange(0, 8))]
    return dict(lib=pick(r, LIBS), runs=[dict(reqs=reqs(), mode=pick(r, ["replay", "replay", "complete", "refresh", "both"]), down=[r.randrange(0, 6)] if r.random() < .2 else [],
                                              end=pick(r, ["return", "return", "raise"])) for _ in range(r.randrange(1, 4))],
                first=reqs(), hash=pick(r, list(HASHES)), encode=pick(r, ["default", "default", "constant"]), seed=r.randrange(1000), gather=r.random() < .4,
                ignore=pick(r, [True, True, False, ["authorization"]]), hide=r.random() < .6, method=r.random() < .3)


def answers(seed, down):
    import random
    r = random.Random(seed)
    table = [(pick(r, [200, 201, 404, 500]), pick(r, HEADERS), pick(r, BODIES)) for _ in range(40)]
    return lambda n: None if n in down else table[n]


def identity(i, client, q):
    method, url, headers, body = client.prepared(q)
    if i["hash"] in ("url", "order"):
        return url
    sent = None if body is None else "same" if i["encode"] == "constant" else body.hex()
    h = {} if i["ignore"] is True else {k: v for k, v in headers.items() if i["ignore"] is False or k not in i["ignore"]}
    return json.dumps([method, url, sent, h], sort_keys=True)


class Boom(Exception):
    pass


def same(a, b, lib):
    """a: what the test saw, b: what it saw when it was recorded"""
    if a[0] != "response" or a[1] != b[1] or a[3] != b[3] or a[4] != b[4]:
        return False
    ha, hb = dict(a[2]), dict(b[2])
    if lib != "requests":
        hb.pop("content-encoding", None)
        ha.pop("content-encoding", None)
        if "content-length" not in hb:
            ha.pop("content-length", None)
    return ha == hb


def one_run(d, i, run, rec, n):
    known = {} if run["mode"] in ("refresh", "both") else rec
    capture = run["mode"] != "replay"
    t = Run(d, MODES[run["mode"]])
    new = {}        # identity -> responses as the test saw them
    lib = i["lib"]
    with World(answers(i["seed"] + n, run["down"])) as world:
        async def act(*args):
            client = Client(lib)
            client.open()
            try:
                if i["gather"] and lib == "httpx-async" and not run["down"] and (capture and not known or not capture):
                    got = await asyncio.gather(*[client.one(q, s) for q, s in run["reqs"]])
                    for (q, s), g in zip(run["reqs"], got):
                        judge(client, q, g, None)
                else:
                    for q, s in run["reqs"]:
                        before = len(world.sent)
                        judge(client, q, await client.one(q, s), world.sent[before:])
            finally:
                await client.close()
            if run["end"] == "raise":
                raise Boom()
            return 77

        def judge(client, q, g, sent):
            k = identity(i, client, q)
            done = new.setdefault(k, [])
            if len(done) < len(known.get(k, [])):
                check(not sent, f"request {q} has a recording and was sent: {sent}")
                check(same(g, known[k][len(done)], lib), f"request {q}, the {len(done) + 1}. of its kind, gave {g}, recorded {known[k][len(done)]}")
                done.append(known[k][len(done)])
            elif not capture:
                check(not sent, f"unrecorded request {q} was sent in replay")
                check(g[0] == "error" and not isinstance(g[1], Down), f"unrecorded request {q} gave {g} in replay")
            else:
                check(sent is None or len(sent) == 1, f"unrecorded request {q} was sent {sent and len(sent)} times")
                if sent is not None and len(world.sent) - 1 in run["down"]:
                    check(g[0] == "error" and isinstance(g[1], Down), f"the transport failed, the request gave {g}")
                else:
                    check(g[0] == "response", f"unrecorded request {q} gave {g!r}")
                    if sent is not None:
                        status, h, b = world.answers(len(world.sent) - 1)
                        check(g[1] == status and g[3] == b, f"the response {status}, {b!r} came out as {g}")
                    done.append(g)
        f = decorator(lib)(i["hide"], i["ignore"], HASHES[i["hash"]], ENCODES[i["encode"]])(act)
        try:
            out = asyncio.run(f(*((Book.__new__(Book), t) if i["method"] else (t,))))
            check(out == 77 and run["end"] == "return", f"the test gave {out!r}")
        except Boom:
            check(run["end"] == "raise", "the test ended otherwise")
        check(world.undone(), "the library is still replaced after the test")
        if capture and not known and i["gather"]:
            check(len(world.sent) == len(run["reqs"]), f"{len(run['reqs'])} requests were sent {len(world.sent)} times")
    with open(stored_file(d, lib)) as h:
        stored = json.load(h)
    check(len(stored) == sum(map(len, new.values())), f"{len(stored)} recordings are stored for {sum(map(len, new.values()))} requests")
    accept(d)
    return new


def run(i):
    d = tempfile.mkdtemp(prefix="vc16")
    try:
        rec = one_run(d, i, dict(reqs=i["first"], mode="refresh", down=[], end="return"), {}, 0)
        for n, r in enumerate(i["runs"]):
            rec = one_run(d, i, r, rec, n + 1)
    finally:
        shutil.rmtree(d)


w.case("requests", gen, run, 10)
w.main()
