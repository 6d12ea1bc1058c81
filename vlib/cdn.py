"""Fake CDN: answers all requests made through `requests`, records them, injects faults"""
import io
import threading
from urllib.parse import urlsplit

import requests
import requests.adapters
import urllib3.exceptions


class Raw:
    """Body of a response, delivered in given blocks, possibly cut short"""

    def __init__(self, body, blocks=None, cut=None, how="error"):
        self.body = body
        self.blocks = blocks
        self.cut = cut
        self.how = how
        self.pos = 0
        self.closed = False
        self.bi = 0
        self._original_response = None
        self.decode_content = False
        self.headers = {}
        self.version = 11
        self.reason = ""

    def _next(self, n):
        end = len(self.body) if self.cut is None else self.cut
        if self.pos >= end:
            if self.cut is not None and self.how == "error":
                raise urllib3.exceptions.ProtocolError("Connection broken: IncompleteRead", None)
            return b""
        if self.blocks:
            size = max(1, self.blocks[self.bi % len(self.blocks)])
            self.bi += 1
            n = size if n is None else min(n, size)
        if n is None:
            n = end - self.pos
        ret = self.body[self.pos:min(end, self.pos + n)]
        self.pos += len(ret)
        return ret

    def read(self, n=None, **kw):
        if n is None:
            ret = b""
            while True:
                d = self._next(None)
                if not d:
                    return ret
                ret += d
        return self._next(n)

    def stream(self, n=None, decode_content=None):
        while True:
            d = self._next(n)
            if not d:
                return
            yield d

    def close(self):
        self.closed = True

    def release_conn(self):
        self.closed = True


class Cdn:
    """`files`: url -> bytes. `hook(url, method, n)` may return a fault:
    ("status", code) | "refuse" | ("cut", position, "error"|"eof") | ("interrupt", exception) | callable
    """

    def __init__(self):
        self.files = {}
        self.headers = {}   # url -> dict
        self.log = []       # [url, method, status]
        self.hook = None
        self.blocks = None
        self.lock = threading.Lock()
        self.gate = None    # callable(url) executed before answering (scheduling)

    def put(self, url, data):
        self.files[url] = data

    def urls(self, prefix=""):
        return [u for u, *_ in self.log if u.startswith(prefix)]

    def send(self, request, stream=False, **kw):
        url, method = request.url, request.method
        with self.lock:
            n = len(self.log)
            entry = [url, method, "?"]
            self.log.append(entry)
        if self.gate is not None:
            self.gate(url)
        fault = self.hook(url, method, n) if self.hook else None
        if callable(fault):
            fault = fault()
        if fault == "refuse":
            entry[2] = "refused"
            raise requests.exceptions.ConnectionError("connection refused", request=request)
        if isinstance(fault, tuple) and fault[0] == "interrupt":
            entry[2] = "interrupt"
            raise fault[1]
        r = requests.Response()
        r.request = request
        r.url = url
        r.encoding = None
        body = self.files.get(url)
        if isinstance(fault, tuple) and fault[0] == "status":
            # errors may have any body
            r.status_code, body = fault[1], (b"error page", b"", body or b"")[n % 3]
        elif body is None:
            r.status_code, body = 404, (b"not found", b"")[n % 2]
        else:
            r.status_code = 200
        r.reason = {200: "OK", 404: "Not Found"}.get(r.status_code, "Error")
        entry[2] = str(r.status_code)
        r.headers.update(self.headers.get(url, {}))
        r.headers["Content-Length"] = str(len(body))
        if method == "HEAD":
            body = b""
        if isinstance(fault, tuple) and fault[0] == "cut":
            pos = min(fault[1], len(body))
            r.raw = Raw(body, self.blocks, cut=pos, how=fault[2])
            entry[2] = "cut"
        else:
            r.raw = Raw(body, self.blocks)
        if not stream:
            r.content
        return r

    def __enter__(self):
        self._old = requests.adapters.HTTPAdapter.send
        cdn = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return cdn.send(request, stream=stream)
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self._old


class Clock:
    """Controlled time.time()"""

    def __init__(self, now=1700000000):
        self.now = now

    def __enter__(self):
        import time
        self._old = (time.time, time.time_ns)
        time.time = lambda: float(self.now)
        time.time_ns = lambda: int(self.now * 10**9)
        return self

    def __exit__(self, *a):
        import time
        time.time, time.time_ns = self._old
