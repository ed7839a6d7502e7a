"""In-process transports joining the real clients to the real applications.

No sockets and no threads of their own: the asynchronous side runs on the virtual loop, so
every interleaving is chosen by the scenario and a wait that can never end is a deadlock.
"""
import asyncio
import gzip
import io
import urllib.parse

import brotli
import zstandard
from pyqwest import Headers, Response, SyncResponse

from .vloop import VLoop


def split(b, pat, st):
    """split bytes by a cyclic pattern of sizes"""
    if not pat:
        return [b]
    out, i = [], 0
    while i < len(b):
        k = pat[st[0] % len(pat)]
        st[0] += 1
        out.append(b[i:i + k])
        i += k
    return out or [b]


BAD_BODY = []


def undo(headers, body, who=None):
    """what the HTTP client library does with content-encoding"""
    enc = [v for k, v in headers if k.lower() == "content-encoding"]
    e = enc[0] if enc else "identity"
    try:
        if e != "identity" and not body:
            raise ValueError("empty body")  # no algorithm produces zero bytes
        if e == "gzip":
            return gzip.decompress(body)
        if e == "br":
            return brotli.decompress(body)
        if e == "zstd":
            return zstandard.ZstdDecompressor().decompressobj().decompress(body)
    except Exception as ex:
        BAD_BODY.append(who)
        raise ValueError("cannot undo content-encoding " + e) from ex
    return body


def asgi_scope(request, root=""):
    u = urllib.parse.urlsplit(request.url)
    path = urllib.parse.unquote(u.path)
    hs = [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in request.headers.items()]
    if not any(k == b"host" for k, _ in hs):
        hs.insert(0, (b"host", u.netloc.encode()))
    return {"type": "http", "asgi": {"version": "3.0"}, "http_version": "2", "method": request.method, "scheme": u.scheme,
            "path": root + path, "raw_path": u.path.encode(), "root_path": root, "query_string": u.query.encode(), "headers": hs,
            "client": ("10.1.2.3", 4567), "server": ("srv", 80), "extensions": {"http.response.trailers": {}}}


def wsgi_environ(request, inp, trailers_cb, root=""):
    u = urllib.parse.urlsplit(request.url)
    env = {"REQUEST_METHOD": request.method, "SCRIPT_NAME": root, "PATH_INFO": urllib.parse.unquote(u.path), "QUERY_STRING": u.query,
           "SERVER_NAME": "srv", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/1.1", "REMOTE_ADDR": "10.1.2.3", "REMOTE_PORT": "4567",
           "wsgi.version": (1, 0), "wsgi.url_scheme": u.scheme, "wsgi.errors": io.StringIO(), "wsgi.input": inp,
           "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False, "wsgi.ext.http.send_trailers": trailers_cb}
    for k, v in request.headers.items():
        n = k.upper().replace("-", "_")
        n = n if n in ("CONTENT_TYPE", "CONTENT_LENGTH") else "HTTP_" + n
        env[n] = env[n] + "," + v if n in env else v
    env.setdefault("HTTP_HOST", u.netloc)
    if inp.known is not None and request.method != "GET":
        env.setdefault("CONTENT_LENGTH", str(inp.known))
    return env


class SyncInput:
    """wsgi.input over an iterator of chunks, pulled lazily"""

    def __init__(self, content, pat=None):
        self.known = None
        if content is None:
            content = b""
        if isinstance(content, (bytes, bytearray, memoryview)):
            self.known = len(content)
            content = iter([bytes(content)])
        self.it, self.buf, self.pat, self.st, self.left = iter(content), b"", pat, 0, False

    def read(self, n=-1):
        while not self.buf:
            try:
                self.buf = bytes(next(self.it))
            except StopIteration:
                return b""
        k = len(self.buf) if n is None or n < 0 else min(n, len(self.buf))
        if self.pat:
            k = min(k, self.pat[self.st % len(self.pat)])
            self.st += 1
        r, self.buf = self.buf[:k], self.buf[k:]
        return r


def run_wsgi_app(app, env):
    """-> (status, headers, iterator); start_response may come with the first body part"""
    got = {}

    def start_response(status, headers, exc_info=None):
        assert "s" not in got, "start_response twice"
        got["s"], got["h"] = int(status.split()[0]), list(headers)
        return lambda b: None
    res = app(env, start_response)
    it = iter(res)
    first = []
    while "s" not in got:
        first.append(next(it))

    return got["s"], got["h"], WsgiBody(res, it, first)


class WsgiBody:
    """what a WSGI server does with a result: iterate it, and close it whether or not it has begun"""

    def __init__(self, res, it, first):
        self.res, self.it, self.first, self.closed = res, it, first, False

    def __iter__(self):
        return self

    def __next__(self):
        if self.closed:
            raise StopIteration
        if self.first:
            return self.first.pop(0)
        try:
            return next(self.it)
        except BaseException:
            self.close()
            raise

    def close(self):
        if not self.closed:
            self.closed = True
            if hasattr(self.res, "close"):
                self.res.close()


class SyncToWsgi:
    def __init__(self, app, pat=None, wire=None):
        self.app, self.pat, self.wire = app, pat, wire

    def execute_sync(self, request):
        tr = Headers()

        def cb(h):
            for k, v in h:
                tr.add(k, v)
        env = wsgi_environ(request, SyncInput(request.content, self.pat), cb)
        status, hs, body = run_wsgi_app(self.app, env)
        if self.wire:
            self.wire(request, status, hs)
        return SyncResponse(status=status, headers=Headers(hs), content=SyncBody(body, hs, self.pat, request.headers.get("x-call")), trailers=tr)


class SyncBody:
    def __init__(self, body, hs, pat, who=None):
        self.body, self.closed, self.who = body, False, who
        self.it = self.run(hs, pat)

    def run(self, hs, pat):
        if any(k.lower() == "content-encoding" and v != "identity" for k, v in hs):
            yield undo(hs, b"".join(self.body), self.who)
            return
        st = [0]
        for b in self.body:
            if b:
                yield from split(b, pat, st)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        if not self.closed:
            self.closed = True
            self.it.close()
            self.body.close()


class AsyncToWsgi:
    """half duplex: the request is collected before the synchronous application runs"""

    def __init__(self, app, pat=None, wire=None):
        self.app, self.pat, self.wire = app, pat, wire

    async def execute(self, request):
        tr = Headers()

        def cb(h):
            for k, v in h:
                tr.add(k, v)
        c = request.content
        parts = None
        if c is None or isinstance(c, (bytes, bytearray, memoryview)):
            inp = SyncInput(c, self.pat)
        else:
            parts = [bytes(x) async for x in c]
            inp = SyncInput(iter(parts), self.pat)
        env = wsgi_environ(request, inp, cb)
        status, hs, body = run_wsgi_app(self.app, env)
        if self.wire:
            self.wire(request, status, hs)
        return Response(status=status, headers=Headers(hs), content=AsyncBody(SyncBody(body, hs, self.pat, request.headers.get("x-call"))), trailers=tr)


class AsyncBody:
    def __init__(self, sb):
        self.sb = sb

    def __aiter__(self):
        return self

    async def __anext__(self):
        await asyncio.sleep(0)
        try:
            return next(self.sb)
        except StopIteration:
            raise StopAsyncIteration from None

    async def aclose(self):
        self.sb.close()


class AsgiExchange:
    """one request served by an ASGI application on the current loop"""

    def __init__(self, app, scope, pull, pat, root=None):
        self.app, self.scope, self.pull, self.pat = app, scope, pull, pat
        self.out = asyncio.Queue(1)
        self.start = asyncio.get_running_loop().create_future()
        self.gone = asyncio.Event()
        self.tr = Headers()
        self.st = [0]
        self.pend = []
        self.req_done = False
        self.exc = None
        self.task = asyncio.ensure_future(self.run())

    async def receive(self):
        if self.gone.is_set():
            return {"type": "http.disconnect"}
        if self.pend:
            return self.pend.pop(0)
        if self.req_done:
            await self.gone.wait()
            return {"type": "http.disconnect"}
        g = asyncio.ensure_future(self.gone.wait())
        p = asyncio.ensure_future(self.pull())
        try:
            await asyncio.wait({g, p}, return_when=asyncio.FIRST_COMPLETED)
        finally:
            g.cancel()
            if not p.done():
                p.cancel()
        if not p.done() or p.cancelled():
            return {"type": "http.disconnect"}
        try:
            b = p.result()
        except Exception as e:
            # the request could not be produced: the whole exchange fails
            self.gone.set()
            if not self.start.done():
                self.start.set_exception(e)
                self.start.exception()
            while not self.out.empty():
                self.out.get_nowait()
            self.out.put_nowait(e)
            return {"type": "http.disconnect"}
        if b is None:
            self.req_done = True
            return {"type": "http.request", "body": b"", "more_body": False}
        self.pend = [{"type": "http.request", "body": x, "more_body": True} for x in split(b, self.pat, self.st)]
        return self.pend.pop(0)

    async def send(self, m):
        if self.gone.is_set():
            return
        t = m["type"]
        if t == "http.response.start":
            assert not self.start.done(), "second http.response.start"
            self.start.set_result((m["status"], [(k.decode("latin-1"), v.decode("latin-1")) for k, v in m.get("headers", [])]))
        elif t == "http.response.body":
            if m.get("body"):
                for x in split(m["body"], self.pat, self.st):
                    await self.put(x)
            if not m.get("more_body", False) and not self.scope.get("_trl"):
                self.body_done = True
        elif t == "http.response.trailers":
            for k, v in m["headers"]:
                self.tr.add(k.decode("latin-1"), v.decode("latin-1"))

    async def put(self, x):
        g = asyncio.ensure_future(self.gone.wait())
        p = asyncio.ensure_future(self.out.put(x))
        try:
            await asyncio.wait({g, p}, return_when=asyncio.FIRST_COMPLETED)
        finally:
            g.cancel()
            if not p.done():
                p.cancel()

    async def run(self):
        try:
            await self.app(self.scope, self.receive, self.send)
        except asyncio.CancelledError:
            raise
        except Exception as e:
            self.exc = e
        finally:
            if not self.start.done():
                self.start.set_exception(ConnectionError("application ended without a response: %r" % (self.exc,)))
                self.start.exception()
            if not self.gone.is_set():
                await self.put(None)

    async def next(self):
        b = await self.out.get()
        if isinstance(b, Exception):
            self.out.put_nowait(b)
            raise b
        if b is None:
            self.out.put_nowait(None)
        return b


class AsyncToAsgi:
    """full duplex; eager reads the request body ahead of the application"""

    def __init__(self, app, pat=None, wire=None, eager=False, jitter=None):
        self.app, self.pat, self.wire, self.eager, self.jitter = app, pat, wire, eager, jitter
        self.xs = []

    async def nap(self):
        if self.jitter is not None:
            for _ in range(self.jitter.randrange(4)):
                await asyncio.sleep(0)

    async def execute(self, request):
        c = request.content
        if c is None or isinstance(c, (bytes, bytearray, memoryview)):
            parts = [bytes(c)] if c else []

            async def pull():
                await self.nap()
                return parts.pop(0) if parts else None
        elif self.eager:
            q = asyncio.Queue()

            async def pump():
                try:
                    async for x in c:
                        await self.nap()
                        q.put_nowait(bytes(x))
                    q.put_nowait(None)
                except Exception as e:
                    q.put_nowait(e)
            pt = asyncio.ensure_future(pump())

            async def pull():
                x = await q.get()
                if isinstance(x, Exception):
                    raise x
                return x
        else:
            it = c.__aiter__()

            async def pull():
                await self.nap()
                try:
                    return bytes(await it.__anext__())
                except StopAsyncIteration:
                    return None
        x = AsgiExchange(self.app, asgi_scope(request), pull, self.pat)
        x.pump = pt if self.eager and not (c is None or isinstance(c, (bytes, bytearray, memoryview))) else None
        self.xs.append(x)
        try:
            status, hs = await asyncio.shield(x.start)
        except asyncio.CancelledError:
            x.gone.set()
            raise
        if self.wire:
            self.wire(request, status, hs)
        return Response(status=status, headers=Headers(hs), content=AsgiBody(x, hs, self), trailers=x.tr)

    async def settle(self):
        for x in self.xs:
            if not x.task.done():
                x.gone.set()
            await asyncio.wait({x.task})
            if x.pump is not None and not x.pump.done():
                x.pump.cancel()


class AsgiBody:
    def __init__(self, x, hs, t):
        self.x, self.hs, self.t = x, hs, t
        self.enc = any(k.lower() == "content-encoding" and v != "identity" for k, v in hs)

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.enc:
            self.enc = False
            parts = []
            while True:
                b = await self.x.next()
                if b is None:
                    break
                parts.append(b)
            return undo(self.hs, b"".join(parts), dict(self.x.scope["headers"]).get(b"x-call", b"").decode())
        await self.t.nap()
        b = await self.x.next()
        if b is None:
            raise StopAsyncIteration
        return b

    async def aclose(self):
        if not self.x.task.done():
            self.x.gone.set()


class SyncToAsgi:
    """the application runs on a loop of its own, advanced while the client waits"""

    def __init__(self, app, pat=None, wire=None):
        self.app, self.pat, self.wire = app, pat, wire

    def execute_sync(self, request):
        loop = VLoop()
        loop.set_exception_handler(lambda l, c: None)
        c = request.content
        if c is None or isinstance(c, (bytes, bytearray, memoryview)):
            it = iter([bytes(c)] if c else [])
        else:
            it = iter(c)

        async def pull():
            try:
                return bytes(next(it))
            except StopIteration:
                return None

        async def begin():
            x = AsgiExchange(self.app, asgi_scope(request), pull, self.pat)
            return x, await x.start
        try:
            x, (status, hs) = loop.run_until_complete(begin())
        except BaseException:
            loop.close()
            raise
        if self.wire:
            self.wire(request, status, hs)
        return SyncResponse(status=status, headers=Headers(hs), content=SyncAsgiBody(loop, x, hs), trailers=x.tr)


class SyncAsgiBody:
    def __init__(self, loop, x, hs):
        self.loop, self.x, self.closed = loop, x, False
        self.hs = hs
        self.enc = any(k.lower() == "content-encoding" and v != "identity" for k, v in hs)

    def __iter__(self):
        return self

    def __next__(self):
        if self.closed:
            raise StopIteration
        if self.enc:
            self.enc = False
            parts = []
            while True:
                b = self.loop.run_until_complete(self.x.next())
                if b is None:
                    break
                parts.append(b)
            return undo(self.hs, b"".join(parts), dict(self.x.scope["headers"]).get(b"x-call", b"").decode())
        b = self.loop.run_until_complete(self.x.next())
        if b is None:
            self.close()
            raise StopIteration
        return b

    def close(self):
        if self.closed:
            return
        self.closed = True

        async def fin():
            if not self.x.task.done():
                self.x.gone.set()
            await asyncio.wait({self.x.task})
        try:
            self.loop.run_until_complete(fin())
            self.loop.run_until_complete(self.loop.shutdown_asyncgens())
        finally:
            self.loop.close()
