"""requests and httpx with stand-in transports: nothing reaches the network"""
import asyncio
import gzip
import io
import json
import os
import shutil
import tempfile
import httpx
import requests
import requests.adapters
import urllib3
import booktest as bt
from booktest.requests import snapshot_requests
from booktest.httpx import snapshot_httpx


class Down(Exception):
    """the transport fails"""


class Run:
    def __init__(self, d, config):
        self.exp_dir_name = os.path.join(d, "exp")
        self.out = os.path.join(d, "out")
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.exp_dir_name, exist_ok=True)
        os.makedirs(self.out)
        self.config = config
        self.text = []

    def file(self, name):
        return os.path.join(self.out, name)

    def h1(self, t):
        self.text.append(t)
        return self

    def tln(self, t=""):
        self.text.append(t)
        return self


class Book(bt.TestBook):
    pass


MODES = {"replay": {}, "complete": {"complete_snapshots": True}, "refresh": {"refresh_snapshots": True},
         "both": {"complete_snapshots": True, "refresh_snapshots": True}}
LIBS = ["requests", "httpx", "httpx-async"]


class Chunks(httpx.SyncByteStream, httpx.AsyncByteStream):
    def __init__(self, body):
        self.parts = [body[:3], body[3:]]

    def __iter__(self):
        yield from self.parts

    async def __aiter__(self):
        for p in self.parts:
            await asyncio.sleep(0)
            yield p


class World:
    """transports that answer with answers(n) = (status, headers, body) or None to fail"""

    def __init__(self, answers):
        self.answers = answers
        self.sent = []      # (method, url, headers, body)

    def next(self, method, url, headers, body):
        self.sent.append((method, str(url), {k.lower(): v for k, v in dict(headers).items()}, body))
        a = self.answers(len(self.sent) - 1)
        if a is None:
            raise Down("down")
        status, h, body = a
        h = dict(h)
        if h.get("Content-Encoding") == "gzip":
            body = gzip.compress(body, mtime=0)
        return status, h, body

    def __enter__(self):
        self.saved = (requests.adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request, requests.Session.send)

        def send(adapter, request, *a, **k):
            body = request.body
            status, h, b = self.next(request.method, request.url, request.headers, body.encode() if isinstance(body, str) else body)
            raw = urllib3.HTTPResponse(body=io.BytesIO(b), headers=h, status=status, preload_content=False)
            return adapter.build_response(request, raw)

        def handle(transport, request):
            status, h, b = self.next(request.method, request.url, request.headers, request.read())
            return httpx.Response(status, headers=h, stream=Chunks(b))

        async def handle_async(transport, request):
            status, h, b = self.next(request.method, request.url, request.headers, await request.aread())
            await asyncio.sleep(0)
            return httpx.Response(status, headers=h, stream=Chunks(b))
        requests.adapters.HTTPAdapter.send = send
        httpx.HTTPTransport.handle_request = handle
        httpx.AsyncHTTPTransport.handle_async_request = handle_async
        self.during = (requests.Session.send, handle, handle_async)
        return self

    def __exit__(self, *a):
        (requests.adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request,
         requests.Session.send) = self.saved

    def undone(self):
        return (requests.Session.send is self.during[0] and httpx.HTTPTransport.handle_request is self.during[1]
                and httpx.AsyncHTTPTransport.handle_async_request is self.during[2])


def seen(r, body):
    return ("response", r.status_code, {k.lower(): v for k, v in dict(r.headers).items()}, body, r.text if body is not None else None)


class Client:
    """makes a request as a test does"""

    def __init__(self, lib):
        self.lib = lib
        self.session = None

    def open(self):
        self.session = requests.Session() if self.lib == "requests" else httpx.Client(verify=False) if self.lib == "httpx" else httpx.AsyncClient(verify=False)

    async def close(self):
        if self.lib == "httpx-async":
            await self.session.aclose()
        else:
            self.session.close()

    def prepared(self, q):
        """the request that reaches a transport: (method, url, headers, body)"""
        method, url, headers, body = q
        if self.lib == "requests":
            r = self.session.prepare_request(requests.Request(method, url, headers=headers, data=body))
            b = r.body.encode() if isinstance(r.body, str) else r.body
        else:
            r = self.session.build_request(method, url, headers=headers, content=body)
            b = r.content
        return r.method, str(r.url), {k.lower(): v for k, v in dict(r.headers).items()}, b

    async def one(self, q, stream=False):
        """(method, url, headers, body) -> ("response", ...) | ("error", exception)"""
        method, url, headers, body = q
        try:
            if self.lib == "requests":
                if stream:
                    with self.session.request(method, url, headers=headers, data=body, stream=True) as r:
                        b = b"".join(r.iter_content(4))
                        return seen(r, b)
                r = self.session.request(method, url, headers=headers, data=body)
                return seen(r, r.content)
            if self.lib == "httpx":
                if stream:
                    with self.session.stream(method, url, headers=headers, content=body) as r:
                        b = b"".join(r.iter_bytes())
                        return seen(r, b)
                r = self.session.request(method, url, headers=headers, content=body)
                return seen(r, r.content)
            if stream:
                async with self.session.stream(method, url, headers=headers, content=body) as r:
                    b = b"".join([x async for x in r.aiter_bytes()])
                    return seen(r, b)
            r = await self.session.request(method, url, headers=headers, content=body)
            return seen(r, r.content)
        except (Down, ValueError) as ex:
            return ("error", ex)


def decorator(lib):
    return snapshot_requests if lib == "requests" else snapshot_httpx


def stored_file(d, lib, where="out"):
    return os.path.join(d, where, ".requests.json" if lib == "requests" else ".httpx.json")


def accept(d):
    """what accepting the results does"""
    shutil.rmtree(os.path.join(d, "exp"))
    os.rename(os.path.join(d, "out"), os.path.join(d, "exp"))
