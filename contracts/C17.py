from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C17 import *


def encoded(body, url, method):
    return body


def key_of(V, M):
    """the identity of an arbitrary request; with an arbitrary header looked at"""
    H = V.str("a header")
    headers = V.dict(StrT, StrT, "headers")
    before = headers.toterm()
    headers.get(H)
    url, method = V.str("url"), V.str("method")
    body = [None, V.str("body")][V.choose(2, "body")]
    k = V.choose(3, "ignored headers")
    ignore = [True, False, V.list(StrT, "ignored")][k]
    hashed = hash_function(V, M)
    custom = hashed if V.choose(2, "custom hash function") == 1 else None
    ign = ignored(V, ignore, H)
    header_hints(V, H, before, ign)
    key = M.RequestKey.from_properties(url, method, headers, body, ignore, custom, encoded)
    o = key.json_object
    V.ensure("the identity is that of what was computed", key.hash == V.state["hash"])
    V.ensure("the identity is computed once", V.state["hashed"] == 1)
    for what, x in (("stored", o), ("hashed", V.state["object"])):
        has, value = header_in(V, x, H)
        V.ensure("an ignored header is not in what is " + what, V.implies(ign, V.neg(has)))
        V.ensure("every other header is in what is " + what, V.implies(V.neg(ign), V.sym(same_header(has, value, before, H))))
        V.ensure("the request is in what is " + what, V.both(x["url"] == url, x["method"] == method))
        V.ensure("the body is in what is " + what, ("body" in x) == (body is not None) and (body is None or x["body"] == body))
    V.ensure("the headers of the request are not changed", V.sym(headers.toterm() == before))


@contract("requests.RequestKey.__init__", "requests.RequestKey.from_properties", "requests.json_to_sha1")
def identity(V):
    key_of(V, V.mod("requests"))


@contract("httpx.RequestKey.__init__", "httpx.RequestKey.from_properties")
def identity_httpx(V):
    key_of(V, V.mod("httpx"))


def some_key(V, M):
    """a key in any state: headers, body and order present or not"""
    hashed = hash_function(V, M)
    custom = hashed if V.choose(2, "custom hash function") == 1 else None
    o = {"url": V.str("url"), "method": V.str("method")}
    if V.choose(2, "headers") == 1:
        o["headers"] = V.dict(StrT, StrT, "headers")
    if V.choose(2, "body") == 1:
        o["body"] = V.str("body")
    if V.choose(2, "repeated") == 1:
        o["order"] = V.int("order")
    o["hash"] = V.str("hash")
    first = V.str("first")
    key = V.new(M.RequestKey, json_object=o, json_to_hash=custom if custom is not None else M.json_to_sha1, hash=o["hash"], first_hash=first)
    return key, o, first


def stored_of(V, M):
    """what is stored for a request, and for its repetition"""
    key, o, first = some_key(V, M)
    order = o.get("order", 0)
    if V.choose(2, "again") == 1:
        nxt = key.increase_order()
        V.ensure("a repetition is numbered", nxt.json_object["order"] == order + 1)
        V.ensure("its identity is computed with the number", V.both(V.state["hashed"] == 1, V.state["object"]["order"] == order + 1))
        V.ensure("its identity is the computed one unless that is the first one's", V.either(nxt.hash == V.state["hash"], V.state["hash"] == first))
        V.ensure("its identity is not the first one's", V.implies(first == V.state["hash"], V.neg(nxt.hash == first)))
        V.ensure("a repetition remembers the first", nxt.first_hash == first)
        same_details(V, "computed for the repetition", V.state["object"], o)
        same_details(V, "kept for the repetition", nxt.json_object, o)
        V.ensure("the original is not changed", ("order" in key.json_object) == ("order" in o) and key.hash == o["hash"])
        key = nxt
    hide = V.choose(2, "hide details") == 1
    stored = key.to_json_object(hide)
    V.ensure("the identity is stored", stored["hash"] == key.hash)
    V.ensure("the request is stored", V.both(stored["url"] == o["url"], stored["method"] == o["method"]))
    if hide:
        V.ensure("hidden headers are not stored", "headers" not in stored)
        V.ensure("a hidden body is not stored", "body" not in stored)
    else:
        same_details(V, "stored", stored, o)
    V.ensure("nothing else is stored", all([k in ("url", "method", "headers", "body", "order", "hash") for k in stored]))
    same_details(V, "kept", key.json_object, o)


def same_details(V, what, x, o):
    V.ensure("the headers are those of the request: " + what, ("headers" in x) == ("headers" in o) and ("headers" not in o or V.sym(same_dict(x["headers"], o["headers"]))))
    V.ensure("the body is that of the request: " + what, ("body" in x) == ("body" in o) and ("body" not in o or x["body"] == o["body"]))


@contract("requests.RequestKey.increase_order", "requests.RequestKey.to_json_object", "requests.RequestKey.__init__")
def stored(V):
    stored_of(V, V.mod("requests"))


@contract("httpx.RequestKey.increase_order", "httpx.RequestKey.to_json_object", "httpx.RequestKey.__init__")
def stored_httpx(V):
    stored_of(V, V.mod("httpx"))


class Session:
    """stands for requests.Session"""


class Transport:
    """stands for httpx.HTTPTransport"""
    handle_request = "real"


class AsyncTransport:
    """stands for httpx.AsyncHTTPTransport"""
    handle_async_request = "real"


class Request:
    """a request of either library"""

    def __init__(self, V):
        self.url, self.method, self.headers, self.body = V.str("url"), V.str("method"), V.dict(StrT, StrT, "headers"), V.str("body")

    def read(self):
        return self.body


class Response:
    """a response that has been received"""

    def __init__(self, V):
        self.headers, self.status_code, self.encoding, self.content = {}, 200, "utf-8", Content()

    def read(self):
        return self.content


class Content(bytes):
    def decode(self, *a):
        return "text"


class Run:
    def __init__(self, V):
        self.exp_dir_name, self.out = V.path("exp"), V.path("out")
        self.config = {"complete_snapshots": True}

    def file(self, name):
        return self.out + "/" + name


class Key:
    """stands for RequestKey: what it is made of, what is asked from it"""
    def __init__(self, made):
        self.made, self.hidden, self.hash, self.first_hash = made, [], "hash", "hash"

    def to_json_object(self, hide):
        self.hidden.append(hide)
        return {"url": "stored"}

    def url(self):
        return "url"


def settings_of(V, M, recorder, sent):
    """the settings of the decorator reach the key of every request made or read, and what is stored"""
    V.io_ok = True
    keys = []

    def key(*made, **named):
        keys.append(Key((made, named)))
        return keys[-1]

    def of_properties(url, method, headers, body, ignore_headers=True, json_to_hash=None, encode_body=None):
        return key(url, method, headers, body, ignore_headers, json_to_hash, encode_body)
    V.patch(M.RequestKey, "from_properties", of_properties)
    ignore, hide = [True, False, V.list(StrT, "ignored")][V.choose(3, "ignored headers")], V.bool("hide details")
    own_hash, own_encode = (None, None) if V.choose(2, "own functions") == 0 else (lambda o: "own", lambda b, u, m: "own")
    V.patch(M.os.path, "exists", lambda p: False)
    if V.choose(2, "settings given") == 0:
        hide, ignore, own_hash, own_encode = True, True, None, None
        r = recorder(Run(V))
    else:
        r = recorder(Run(V), hide, ignore, own_hash, own_encode)
    request = Request(V)
    sent(r, request)
    V.ensure("a request has one key", len(keys) == 1)
    made = keys[0].made[0]
    V.ensure("the key is that of the request", V.both(made[0] == request.url, made[1] == request.method) and made[2] is request.headers)
    V.ensure("the body is in the key", made[3] == request.body)
    V.ensure("the headers to ignore are those given", made[4] is ignore)
    V.ensure("the functions are those given", made[5] is own_hash and made[6] is own_encode)
    return r, keys, hide, ignore, own_hash


@contract("requests.SnapshotRequests.__init__", "requests.SnapshotAdapter.__init__", "requests.SnapshotAdapter.lookup_snapshot", "requests.RequestKey.from_request",
          "requests.RequestSnapshot.json_object", "requests.SnapshotRequests.stop")
def settings(V):
    M = V.mod("requests")
    V.patch(M.requests, "Session", Session)

    def sent(r, request):
        key, response = r._adapter.lookup_snapshot(request)
        V.ensure("nothing is recorded", response is None)
        r._adapter.requests.append(M.RequestSnapshot(key, Response(V)))
    r, keys, hide, ignore, own_hash = settings_of(V, M, M.SnapshotRequests, sent)
    r.stop()
    V.ensure("details are hidden as given", len(keys[0].hidden) == 1 and keys[0].hidden[0] is hide)


@contract("httpx.SnapshotHttpx.__init__", "httpx.SnapshotHttpx.lookup_snapshot", "httpx.RequestKey.from_request", "httpx.RequestSnapshot.json_object",
          "httpx.SnapshotHttpx.stop")
def settings_httpx(V):
    M = V.mod("httpx")
    V.patch(M.httpx, "HTTPTransport", Transport)
    V.patch(M.httpx, "AsyncHTTPTransport", AsyncTransport)

    def sent(r, request):
        r.start()
        key, response = r.lookup_snapshot(request)
        V.ensure("nothing is recorded", response is None)
        r.requests.append(M.RequestSnapshot(key, Response(V)))
    r, keys, hide, ignore, own_hash = settings_of(V, M, M.SnapshotHttpx, sent)
    r.stop()
    V.ensure("details are hidden as given", len(keys[0].hidden) == 1 and keys[0].hidden[0] is hide)


class Book:
    """stands for booktest.TestBook"""


class Recorder:
    """stands for SnapshotRequests and SnapshotHttpx"""
    made = []

    def __init__(self, t, lose_request_details=True, ignore_headers=True, json_to_hash=None, encode_body=None):
        Recorder.made.append((t, lose_request_details, ignore_headers, json_to_hash, encode_body))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def decorated(V, M, name, decorator):
    """everything hidden and ignored by default; otherwise what is given"""
    V.patch(V.prog.pkg, "TestBook", Book)
    Recorder.made = []
    V.patch(M, name, Recorder)
    t = Run(V)
    hide, ignore = V.bool("hide details"), V.list(StrT, "ignored")
    own_hash, own_encode = (lambda o: "own"), (lambda b, u, m: "own")
    default = V.choose(2, "settings given") == 0
    f = decorator()(lambda *a: 1) if default else decorator(hide, ignore, own_hash, own_encode)(lambda *a: 1)
    r = V.run(f, t) if V.choose(2, "method") == 0 else V.run(f, Book(), t)
    V.ensure("the test is run", r.ok)
    V.ensure("requests are recorded for the test", len(Recorder.made) == 1 and Recorder.made[0][0] is t)
    t, a, b, c, d = Recorder.made[0]
    if default:
        V.ensure("everything is hidden and ignored by default", V.both(a == True, b == True) and c is None and d is None)
    else:
        V.ensure("the settings are those given", a is hide and b is ignore and c is own_hash and d is own_encode)


@contract("requests.snapshot_requests")
def decorator(V):
    M = V.mod("requests")
    decorated(V, M, "SnapshotRequests", M.snapshot_requests)


@contract("httpx.snapshot_httpx")
def decorator_httpx(V):
    M = V.mod("httpx")
    decorated(V, M, "SnapshotHttpx", M.snapshot_httpx)
