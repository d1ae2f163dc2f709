from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C16 import *


class Real:
    """the real transport; what is sent is counted"""

    def __init__(self, V, M):
        self.V, self.sent, self.response = V, [], V.obj(response_class(V, M), "response")

    def send(self, *a, **k):
        self.sent.append(a)
        if self.V.choose(2, "the transport") == 1:
            raise OSError("down")
        return self.response


class Request:
    """a request of either library"""

    def __init__(self, V):
        self.url, self.method, self.headers, self.body = V.str("url"), V.str("method"), V.dict(StrT, StrT, "headers"), V.str("body")

    def read(self):
        return self.body


def made(V, M):
    """any recordings, any requests made before; the request is the k-th repetition, for any k"""
    chain = Chain(V, M)
    recs, before = V.list(ObjT(M.RequestSnapshot), "recorded"), V.list(ObjT(M.RequestSnapshot), "made")
    chain.made(before)
    key = chain.key(z3.IntVal(0))
    V.patch(M.RequestKey, "from_request", lambda *a: key)
    V.patch(M.RequestKey, "increase_order", lambda self: chain.next(self))
    chain.hints()
    return chain, recs, before


def outcome(V, chain, some, capture, real, request, r, match, now, on_way=None):
    V.ensure("no recorded request is sent", V.implies(some, len(real.sent) == 0))
    V.ensure("an unrecorded request is sent exactly when capturing", V.implies(V.neg(some), V.iff(len(real.sent) == 1, capture)))
    V.ensure("a request is sent at most once", len(real.sent) <= 1)
    if len(real.sent) == 1:
        V.ensure("the request sent is that of the test", real.sent[0][-1] is request)
    if r.ok:
        V.ensure("the k-th repetition gets the k-th recording", V.implies(some, match.response(r.value)))
        V.ensure("the response of an unrecorded request is that of the transport", V.either(some, r.value is real.response))
        if on_way is not None and on_way.snapshot is not None:
            V.ensure("what is made stays recorded as the next repetition", on_way.last(now()))
            V.ensure("its response is recorded", on_way.response is r.value)
        else:
            V.ensure("what is made is recorded as the next repetition", appended(V, chain, now(), r.value))
    else:
        V.ensure("a recorded request is answered", V.neg(some))
        V.ensure("a failed request is not recorded", unchanged(V, chain, now()))


@contract("requests.SnapshotAdapter.send", "requests.SnapshotAdapter.lookup_snapshot", "requests.SnapshotAdapter.mark_order", "requests.RequestKey.__eq__",
          "requests.RequestSnapshot.match", "requests.RequestSnapshot.__eq__", "requests.RequestSnapshot.__init__")
def send(V):
    M = V.mod("requests")
    chain, recs, before = made(V, M)
    capture = V.bool("capture")
    real = Real(V, M)
    V.patch(M.adapters, "HTTPAdapter", lambda *a: real)
    a = V.new(M.SnapshotAdapter, snapshots=recs, requests=before, capture_snapshots=capture, ignore_headers=True, json_to_hash=None, encode_body=None)
    match = Matching(V, recs, chain)
    some = match.some()
    request = Request(V)
    r = V.run(lambda: a.send(request, timeout=1))
    outcome(V, chain, some, capture, real, request, r, match, lambda: a.requests)


@contract("httpx.SnapshotHttpx.handle_request", "httpx.SnapshotHttpx.lookup_snapshot", "httpx.SnapshotHttpx.mark_order", "httpx.RequestKey.__eq__",
          "httpx.RequestSnapshot.match", "httpx.RequestSnapshot.__eq__", "httpx.RequestSnapshot.__init__")
def handle(V):
    M = V.mod("httpx")
    chain, recs, before = made(V, M)
    capture = V.bool("capture")
    real = Real(V, M)
    V.terminates()
    V.measure(chain.left)
    a = V.new(M.SnapshotHttpx, snapshots=recs, requests=before, capture_snapshots=capture, _ignore_headers=True, _json_to_hash=None, _encode_body=None,
              _real_handle_request=real.send, _lose_request_details=True)
    match = Matching(V, recs, chain)
    some = match.some()
    request = Request(V)
    r = V.run(lambda: a.handle_request("transport", request))
    outcome(V, chain, some, capture, real, request, r, match, lambda: a.requests)


@contract("httpx.SnapshotHttpx.handle_async_request", "httpx.SnapshotHttpx.lookup_snapshot", "httpx.SnapshotHttpx.mark_order")
def handle_async(V):
    """a request on its way counts as made: if the same request is made again, while this is awaited, that is the next repetition"""
    M = V.mod("httpx")
    chain, recs, before = made(V, M)
    capture = V.bool("capture")
    real = Real(V, M)
    on_way = OnWay(V, M, chain)
    a = V.new(M.SnapshotHttpx, snapshots=recs, requests=before, capture_snapshots=capture, _ignore_headers=True, _json_to_hash=None, _encode_body=None,
              _lose_request_details=True)

    async def transport(*args):
        V.ensure("while a request is on its way it counts as made", on_way.last(a.requests))
        return real.send(*args)
    a._real_handle_async_request = transport
    match = Matching(V, recs, chain)
    some = match.some()
    request = Request(V)
    r = V.run(lambda: a.handle_async_request("transport", request))
    outcome(V, chain, some, capture, real, request, r, match, lambda: a.requests, on_way)


class Run:
    """stands for the running test"""

    def __init__(self, V):
        self.V, self.exp_dir_name, self.out, self.config = V, V.path("exp"), V.path("out"), {}

    def file(self, name):
        return self.out + "/" + name

    def h1(self, title):
        if self.V.choose(2, "printing") == 1:
            raise OSError("no space")

    def tln(self, text):
        return self


def settings(V):
    return V.list(StrT, "ignored"), V.any("own hash"), V.any("own encoding")


def recordings_of(V, M, name, make, recorded, capturing):
    """any stored files, any modes: what is replayed is exactly what is stored; nothing when refreshing"""
    t = Run(V)
    refresh, complete = V.bool("refresh"), V.bool("complete")
    t.config = {"refresh_snapshots": refresh, "complete_snapshots": complete}
    d, f = t.exp_dir_name + "/." + name, t.exp_dir_name + "/." + name + ".json"
    there = V.fs.isdir(d)
    V.assume(V.either(there, V.neg(V.fs.exists(d))))
    V.assume(V.neg(V.fs.isdir(f)))
    names = V.list(StrT, "names")
    ignore, own_hash = V.list(StrT, "ignored"), V.any("own hash")
    files = Files(V, M, d, f, names, ignore, own_hash)
    r = make(t, ignore, own_hash)
    V.ensure("calls are captured exactly when refreshing or completing", V.iff(capturing(r), V.either(refresh, complete)))
    V.ensure("what is replayed is what is stored, nothing when refreshing", files.all_loaded(recorded(r), V.both(there, V.neg(refresh)), V.both(V.fs.exists(f), V.neg(refresh))))


@contract("requests.SnapshotRequests.__init__", "requests.SnapshotAdapter.__init__")
def recordings(V):
    M = V.mod("requests")

    def recorded(r):
        V.ensure("no request is made yet", len(r._adapter.requests) == 0)
        return r._adapter.snapshots
    recordings_of(V, M, "requests", lambda t, i, h: M.SnapshotRequests(t, ignore_headers=i, json_to_hash=h), recorded, lambda r: r._adapter.capture_snapshots)


@contract("httpx.SnapshotHttpx.__init__")
def recordings_httpx(V):
    M = V.mod("httpx")

    def recorded(r):
        V.ensure("no request is made yet", len(r.requests) == 0)
        return r.snapshots
    recordings_of(V, M, "httpx", lambda t, i, h: M.SnapshotHttpx(t, ignore_headers=i, json_to_hash=h), recorded, lambda r: r.capture_snapshots)


class Stored:
    """what json_object gives"""


def storing_of(V, M, name, make):
    """any requests made, with different identities: each is stored"""
    t = Run(V)
    chain = Storing(V, M)
    made = V.list(ObjT(M.RequestSnapshot), "made")
    hide = V.bool("hide details")
    V.patch(M.RequestSnapshot, "json_object", lambda self, h: chain.stored(self, h, hide))
    x = chain.a_request(made)
    path = t.out + "/." + name
    V.assume(V.neg(V.fs.isdir(path)))
    chain.hints()
    s = make(t, made, hide, path)
    r = V.run(s.stop)
    if r.ok:
        V.ensure("every request is stored", chain.is_stored(path))
        V.ensure("and only those", chain.only_made(path))


@contract("requests.SnapshotRequests.stop")
def storing(V):
    M = V.mod("requests")
    V.patch(M.requests, "Session", Session)

    def make(t, made, hide, path):
        a = V.new(M.SnapshotAdapter, requests=made)
        return V.new(M.SnapshotRequests, t=t, _adapter=a, _lose_request_details=hide, mock_out_file=path, _mock_target=Session, _last_send=None)
    storing_of(V, M, "requests.json", make)


@contract("httpx.SnapshotHttpx.stop")
def storing_httpx(V):
    M = V.mod("httpx")
    V.patch(M.httpx, "HTTPTransport", Transport)
    V.patch(M.httpx, "AsyncHTTPTransport", AsyncTransport)

    def make(t, made, hide, path):
        return V.new(M.SnapshotHttpx, t=t, requests=made, _lose_request_details=hide, mock_out_file=path, _real_handle_request=None, _real_handle_async_request=None)
    storing_of(V, M, "httpx.json", make)


class Headers:
    """requests' case insensitive dictionary"""

    def __init__(self, d):
        self.d = d


class Answer:
    """stands for requests.Response and httpx.Response"""

    def __init__(self, status_code=None, headers=None, content=None):
        self.status_code, self.headers, self._content, self.encoding = status_code, headers, content, None

    @property
    def content(self):
        return self._content


def some_answer(V):
    r = Answer(V.int("status"), V.dict(StrT, StrT, "headers"), V.bytes("body"))
    r.encoding = V.opt(StrT, "encoding")
    return r


class Key:
    """stands for RequestKey"""

    def __init__(self, stored, ignore_headers=True, json_to_hash=None):
        self.stored, self.settings = stored, (ignore_headers, json_to_hash)

    def to_json_object(self, hide):
        return self.stored


def roundtrip_of(V, M):
    V.patch(M, "RequestKey", Key)
    answer = some_answer(V)
    before = named_dict(V, answer.headers)
    stored = V.any("stored request")
    j = M.RequestSnapshot(Key(stored), answer).json_object(V.bool("hide"))
    V.ensure("the response is not changed by storing it", V.sym(same_dict(answer.headers, before)))
    ignore, own_hash = V.any("ignored"), V.any("own hash")
    back = M.RequestSnapshot.from_json_object(j, ignore, own_hash)
    V.ensure("the request is the stored one", back.request.stored is stored)
    V.ensure("the key is made with the settings", back.request.settings[0] is ignore and back.request.settings[1] is own_hash)
    V.ensure("the status is the recorded one", back.response.status_code == answer.status_code)
    V.ensure("the body is the recorded one, whatever its bytes", back.response.content == answer.content)
    r = j["response"]
    V.ensure("what is stored can be written as json", isinstance(r["content"], str) and isinstance(r["statusCode"], int) and isinstance(r["headers"], dict))
    return back.response, answer, before


@contract("requests.RequestSnapshot.json_object", "requests.RequestSnapshot.from_json_object")
def roundtrip(V):
    M = V.mod("requests")
    V.patch(M.requests, "Response", Answer)
    V.patch(M, "CaseInsensitiveDict", Headers)
    b, a, before = roundtrip_of(V, M)
    V.ensure("the headers are the recorded ones", isinstance(b.headers, Headers) and V.sym(same_dict(b.headers.d, before)))
    V.ensure("the encoding is the recorded one", b.encoding == a.encoding)


@contract("httpx.RequestSnapshot.json_object", "httpx.RequestSnapshot.from_json_object")
def roundtrip_httpx(V):
    """the body is stored decompressed: the header that says how it is compressed is left out"""
    M = V.mod("httpx")
    V.patch(M.httpx, "Response", Answer)
    b, a, before = roundtrip_of(V, M)
    V.ensure("the headers are the recorded ones", V.sym(same_dict(b.headers, without(before, "content-encoding"))))


class Session:
    """stands for requests.Session"""
    def get_adapter(self, url):
        return self.real

    def send(self, request, **kwargs):
        return self.get_adapter(request.url).send(request, **kwargs)


def bound(f, o):
    """six.create_bound_method"""
    return lambda *a, **k: f(o, *a, **k)


class Transport:
    """stands for httpx.HTTPTransport"""
    def handle_request(self, request):
        return self.real.send(request)


class AsyncTransport:
    """stands for httpx.AsyncHTTPTransport"""
    async def handle_async_request(self, request):
        return self.real.send(request)


class Recording:
    """what answers the requests while snapshotting; printing, storing and the test itself may fail"""

    def __init__(self, V):
        self.V, self.asked = V, []

    def answer(self, *a):
        self.asked.append(a)
        return "recorded"


def during(V, M, recorder, ask, real):
    """a request in the test, the test may fail"""
    ended = V.choose(3, "how the test ends")

    def test():
        with recorder:
            got = ask()
            V.ensure("a request in the test is answered by the recordings", got == "recorded")
            if ended == 1:
                raise KeyboardInterrupt()
    r = V.run(test)
    V.ensure("no request of the test is sent", len(real.sent) == 0)
    got = ask()
    V.ensure("afterwards a request is sent", got is real.response and len(real.sent) == 1)


@contract("requests.SnapshotRequests.start", "requests.SnapshotRequests.stop", "requests.SnapshotRequests.__enter__", "requests.SnapshotRequests.__exit__")
def undone(V):
    M = V.mod("requests")
    V.io_ok = True
    V.patch(M.requests, "Session", Session)
    V.patch(M, "_original_send", Session.send)
    V.patch(M.six, "create_bound_method", bound)
    V.patch(M.six, "get_method_self", lambda m: m.__self__)
    send, get_adapter = Session.send, Session.get_adapter
    real = Sent(V)
    recording = Recording(V)
    adapter = V.new(M.SnapshotAdapter, requests=[])
    V.patch(M.SnapshotAdapter, "send", lambda self, *a, **k: recording.answer(*a))
    s = V.new(M.SnapshotRequests, t=Run(V), _adapter=adapter, _lose_request_details=True, mock_out_file=V.path("file"), _mock_target=Session, _last_send=None,
              _last_get_adapter=None)
    session = Session()
    session.real = real
    request = Request(V)

    def ask():
        return session.send(request, timeout=1)
    during(V, M, s, ask, real)
    V.ensure("every request is passed on", len(recording.asked) == 1 and recording.asked[0][0] is request)
    V.ensure("sessions are what they were", Session.send is send and Session.get_adapter is get_adapter)
    fresh = Session()
    fresh.real = real
    V.ensure("a new session sends its requests", fresh.send(request) is real.response)


@contract("httpx.SnapshotHttpx.start", "httpx.SnapshotHttpx.stop", "httpx.SnapshotHttpx.__enter__", "httpx.SnapshotHttpx.__exit__")
def undone_httpx(V):
    M = V.mod("httpx")
    V.io_ok = True
    V.patch(M.httpx, "HTTPTransport", Transport)
    V.patch(M.httpx, "AsyncHTTPTransport", AsyncTransport)
    before = Transport.handle_request, AsyncTransport.handle_async_request
    real = Sent(V)
    recording = Recording(V)

    async def answer(self, *a):
        return recording.answer(*a)
    V.patch(M.SnapshotHttpx, "handle_request", lambda self, *a: recording.answer(*a))
    V.patch(M.SnapshotHttpx, "handle_async_request", answer)
    s = V.new(M.SnapshotHttpx, t=Run(V), requests=[], _lose_request_details=True, mock_out_file=V.path("file"), _real_handle_request=None, _real_handle_async_request=None)
    transport = [Transport, AsyncTransport][V.choose(2, "asynchronous")]()
    transport.real = real
    request = Request(V)

    def ask():
        if isinstance(transport, Transport):
            return transport.handle_request(request)
        return V.run(lambda: transport.handle_async_request(request)).value
    during(V, M, s, ask, real)
    V.ensure("every request is passed on", len(recording.asked) == 1 and recording.asked[0][0] is transport and recording.asked[0][1] is request)
    V.ensure("transports are what they were", Transport.handle_request is before[0] and AsyncTransport.handle_async_request is before[1])


class Sent:
    """the real transport"""

    def __init__(self, V):
        self.sent, self.response = [], V.obj(Response, "response")

    def send(self, *a, **k):
        self.sent.append(a)
        return self.response
