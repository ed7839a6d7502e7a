"""Chains of interceptors on real clients and servers (Interceptors.tla)."""
import asyncio
import itertools

from pyqwest import Client, SyncClient

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import Endpoint, EndpointSync

from ..bridge import AsyncToAsgi, AsyncToWsgi, SyncToAsgi, SyncToWsgi
from ..toys import Msg, RawCodec
from ..vloop import run_virtual
from .e2e import ADDR, PT
from .server import App, WApp

KN = {"unary": "U", "client": "C", "server": "S", "bidi": "B"}
IN = {"unary": "intercept_unary", "client": "intercept_client_stream", "server": "intercept_server_stream", "bidi": "intercept_bidi_stream"}


def L(ev, **kw):
    e = {"ev": ev, "c": 1, "lv": "", "id": 0, "code": "", "msg": "", "kv": [], "ok": False}
    e.update(kw)
    return e


def parts(m):
    return bytes(m.data).decode().split("|") if isinstance(m, Msg) else ["?" + type(m).__name__]


def msg(p):
    return Msg("|".join(p).encode())


async def aclose(it):
    if hasattr(it, "aclose"):
        await it.aclose()


class Falsy:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return False


class X:
    def __init__(self, scn):
        self.scn = scn
        self.ev = []
        self.toks = itertools.count(1000)
        self.excs = {}
        self.keep = []

    async def hang(self, i):
        c = self.scn["calls"][i]
        if c.get("cut"):
            c["hung"].set()
            # until the caller is gone; then on to the end, or cancelled with the request
            await c["over"].wait()
            if c.get("below") and c.get("was"):
                asyncio.current_task().cancel()
                await asyncio.sleep(0)

    def log(self, ev, ctx, lv, **kw):
        i = ctx if isinstance(ctx, int) else self.idx(ctx)
        self.ev.append(L(ev, c=i + 1, lv=lv, **kw))

    def idx(self, ctx):
        try:
            i = int(ctx.request_headers.get("x-call", "-1").split(",")[0])
        except ValueError:
            i = -1
        if not 0 <= i < len(self.scn["calls"]):
            self.ev.append(L("crash"))
            raise RuntimeError("lost call")
        return i

    def eid(self, e):
        if id(e) not in self.excs:
            self.excs[id(e)] = len(self.excs) + 1
            self.keep.append(e)
        return self.excs[id(e)]

    def ex(self, e):
        if isinstance(e, ConnectError):
            return {"id": self.eid(e), "code": e.code.value, "msg": e.message}
        return {"id": self.eid(e), "code": "raw", "msg": str(e)}

    def boom(self, ctx, lv, how):
        e = ConnectError(Code(how[1]), how[2]) if how[0] == "raise" else ValueError(how[2])
        self.log("raise", ctx, lv, **self.ex(e))
        return e

    # ---------------------------------------------------------------- metadata interceptors
    def meta(self, spec, flavours):
        x, lv = self, spec["name"]
        nones = {}

        def start(ctx):
            if spec.get("fail"):
                e = ConnectError(Code.ABORTED, "start of " + lv)
                x.log("start", ctx, lv, ok=False, **x.ex(e))
                raise e
            t = next(x.toks)
            x.log("start", ctx, lv, id=t, ok=True)
            mode = spec.get("tok", "id")
            if mode == "none":
                nones[x.idx(ctx)] = t
                return None
            return {"id": t, "tuple": ("tok", t), "falsy": Falsy(t)}[mode]

        def end(token, ctx, error):
            # a token of None says nothing about the call it belongs to; it must come back as None
            t = nones.get(x.idx(ctx), -1) if token is None else token[1] if isinstance(token, tuple) else \
                token.t if isinstance(token, Falsy) else token
            kw = x.ex(error) if error is not None else {}
            kw["id"] = t if isinstance(t, int) else -1
            x.log("end", ctx, lv, ok=error is not None, **kw)
        ns = {}
        if "async" in flavours:
            async def on_start(self, ctx):
                if spec.get("slow"):
                    await asyncio.sleep(0)
                return start(ctx)

            async def on_end(self, token, ctx, error):
                if spec.get("slow"):
                    await asyncio.sleep(0)
                end(token, ctx, error)
            ns.update(on_start=on_start, on_end=on_end)
        if "sync" in flavours:
            ns.update(on_start_sync=lambda self, ctx: start(ctx), on_end_sync=lambda self, t, ctx, e: end(t, ctx, e))
        return type("Meta", (), ns)()

    # ---------------------------------------------------------------- full interceptors
    def icpt(self, spec, flavours):
        x, lv, a = self, spec["name"], spec.get("act", {})
        ns = {}

        def req_out(ctx, request):
            p = parts(request) + ([lv] if a.get("req") else [])
            x.log("pass", ctx, lv, kv=p)
            return msg(p) if a.get("req") else request

        def resp_out(p):
            return p + ([lv] if a.get("resp") else [])

        if "async" in flavours:
            def areq(ctx, request):
                async def g():
                    async for m in request:
                        p = parts(m)
                        x.log("rin", ctx, lv, kv=p)
                        p = p + ([lv] if a.get("req") else [])
                        x.log("rout", ctx, lv, kv=p)
                        yield msg(p)
                    x.log("rend", ctx, lv)
                    x.log("reof", ctx, lv)
                x.log("pass", ctx, lv)
                return g()

            async def one(call_next, request, ctx, stream):
                x.log("enter", ctx, lv, kv=[] if stream else parts(request))
                try:
                    if a.get("before"):
                        raise x.boom(ctx, lv, a["before"])
                    if a.get("short"):
                        x.log("ret", ctx, lv, kv=["short", lv])
                        return msg(["short", lv])
                    try:
                        r = await call_next(areq(ctx, request) if stream else req_out(ctx, request), ctx)
                    except Exception as e:
                        x.log("caught", ctx, lv, **x.ex(e))
                        if a.get("catch"):
                            x.log("ret", ctx, lv, kv=["caught", lv])
                            return msg(["caught", lv])
                        if a.get("replace"):
                            raise x.boom(ctx, lv, a["replace"]) from e
                        x.log("raise", ctx, lv, **x.ex(e))
                        raise
                    x.log("got", ctx, lv, kv=parts(r))
                    if a.get("after"):
                        raise x.boom(ctx, lv, a["after"])
                    p = resp_out(parts(r))
                    x.log("ret", ctx, lv, kv=p)
                    return msg(p)
                except (asyncio.CancelledError, GeneratorExit) as e:
                    x.log("closed", ctx, lv, code="canceled" if isinstance(e, asyncio.CancelledError) else "")
                    raise
                finally:
                    x.log("exit", ctx, lv)

            async def many(call_next, request, ctx, stream):
                x.log("enter", ctx, lv, kv=[] if stream else parts(request))
                try:
                    if a.get("before"):
                        raise x.boom(ctx, lv, a["before"])
                    if a.get("short"):
                        x.log("item_out", ctx, lv, kv=["short", lv])
                        yield msg(["short", lv])
                        x.log("eof_out", ctx, lv)
                        return
                    it = call_next(areq(ctx, request) if stream else req_out(ctx, request), ctx)
                    n = 0
                    try:
                        while True:
                            if a.get("stop") == n:
                                x.log("closing", ctx, lv)
                                break
                            try:
                                m = await it.__anext__()
                            except StopAsyncIteration:
                                x.log("eof_in", ctx, lv)
                                break
                            except Exception as e:
                                x.log("caught", ctx, lv, **x.ex(e))
                                if a.get("catch"):
                                    break
                                if a.get("replace"):
                                    raise x.boom(ctx, lv, a["replace"]) from e
                                x.log("raise", ctx, lv, **x.ex(e))
                                raise
                            n += 1
                            x.log("item_in", ctx, lv, kv=parts(m))
                            p = resp_out(parts(m))
                            x.log("item_out", ctx, lv, kv=p)
                            yield msg(p)
                    finally:
                        await aclose(it)
                    if a.get("after"):
                        raise x.boom(ctx, lv, a["after"])
                    if a.get("extra"):
                        x.log("item_out", ctx, lv, kv=["extra", lv])
                        yield msg(["extra", lv])
                    x.log("eof_out", ctx, lv)
                except (asyncio.CancelledError, GeneratorExit) as e:
                    x.log("closed", ctx, lv, code="canceled" if isinstance(e, asyncio.CancelledError) else "")
                    raise
                finally:
                    x.log("exit", ctx, lv)

            async def iu(self, call_next, request, ctx):
                return await one(call_next, request, ctx, False)

            async def ic(self, call_next, request, ctx):
                return await one(call_next, request, ctx, True)
            fs = {"unary": iu, "client": ic, "server": lambda self, n, r, c: many(n, r, c, False), "bidi": lambda self, n, r, c: many(n, r, c, True)}
            for k in spec["caps"]:
                ns[IN[k]] = fs[k]
        if "sync" in flavours:
            def sreq(ctx, request):
                def g():
                    for m in request:
                        p = parts(m)
                        x.log("rin", ctx, lv, kv=p)
                        p = p + ([lv] if a.get("req") else [])
                        x.log("rout", ctx, lv, kv=p)
                        yield msg(p)
                    x.log("rend", ctx, lv)
                    x.log("reof", ctx, lv)
                x.log("pass", ctx, lv)
                return g()

            def sone(call_next, request, ctx, stream):
                x.log("enter", ctx, lv, kv=[] if stream else parts(request))
                try:
                    if a.get("before"):
                        raise x.boom(ctx, lv, a["before"])
                    if a.get("short"):
                        x.log("ret", ctx, lv, kv=["short", lv])
                        return msg(["short", lv])
                    try:
                        r = call_next(sreq(ctx, request) if stream else req_out(ctx, request), ctx)
                    except Exception as e:
                        x.log("caught", ctx, lv, **x.ex(e))
                        if a.get("catch"):
                            x.log("ret", ctx, lv, kv=["caught", lv])
                            return msg(["caught", lv])
                        if a.get("replace"):
                            raise x.boom(ctx, lv, a["replace"]) from e
                        x.log("raise", ctx, lv, **x.ex(e))
                        raise
                    x.log("got", ctx, lv, kv=parts(r))
                    if a.get("after"):
                        raise x.boom(ctx, lv, a["after"])
                    p = resp_out(parts(r))
                    x.log("ret", ctx, lv, kv=p)
                    return msg(p)
                except GeneratorExit:
                    x.log("closed", ctx, lv)
                    raise
                finally:
                    x.log("exit", ctx, lv)

            def smany(call_next, request, ctx, stream):
                x.log("enter", ctx, lv, kv=[] if stream else parts(request))
                try:
                    if a.get("before"):
                        raise x.boom(ctx, lv, a["before"])
                    if a.get("short"):
                        x.log("item_out", ctx, lv, kv=["short", lv])
                        yield msg(["short", lv])
                        x.log("eof_out", ctx, lv)
                        return
                    it = call_next(sreq(ctx, request) if stream else req_out(ctx, request), ctx)
                    n = 0
                    try:
                        while True:
                            if a.get("stop") == n:
                                x.log("closing", ctx, lv)
                                break
                            try:
                                m = next(it)
                            except StopIteration:
                                x.log("eof_in", ctx, lv)
                                break
                            except Exception as e:
                                x.log("caught", ctx, lv, **x.ex(e))
                                if a.get("catch"):
                                    break
                                if a.get("replace"):
                                    raise x.boom(ctx, lv, a["replace"]) from e
                                x.log("raise", ctx, lv, **x.ex(e))
                                raise
                            n += 1
                            x.log("item_in", ctx, lv, kv=parts(m))
                            p = resp_out(parts(m))
                            x.log("item_out", ctx, lv, kv=p)
                            yield msg(p)
                    finally:
                        if hasattr(it, "close"):
                            it.close()
                    if a.get("after"):
                        raise x.boom(ctx, lv, a["after"])
                    if a.get("extra"):
                        x.log("item_out", ctx, lv, kv=["extra", lv])
                        yield msg(["extra", lv])
                    x.log("eof_out", ctx, lv)
                except GeneratorExit:
                    x.log("closed", ctx, lv)
                    raise
                finally:
                    x.log("exit", ctx, lv)
            fs = {"unary": lambda self, n, r, c: sone(n, r, c, False), "client": lambda self, n, r, c: sone(n, r, c, True),
                  "server": lambda self, n, r, c: smany(n, r, c, False), "bidi": lambda self, n, r, c: smany(n, r, c, True)}
            for k in spec["caps"]:
                ns[IN[k] + "_sync"] = fs[k]
        return type("Icpt", (), ns)()

    def chain(self, specs, flavour, form):
        out = []
        for s in specs:
            fl = {"own": {flavour}, "both": {"async", "sync"}, "other": {"sync" if flavour == "async" else "async"}}[s.get("for", "own")]
            out.append(self.meta(s, fl) if s["meta"] else self.icpt(s, fl))
        return {"list": list, "tuple": tuple, "iter": iter, "gen": lambda o: (i for i in o)}[form](out)

    def cfg(self):
        def side(l):
            return [{"name": s["name"], "meta": s["meta"] and s.get("for", "own") != "other",
                     "caps": [] if s["meta"] or s.get("for", "own") == "other" else s["caps"]} for s in l]
        return {"calls": [{"kind": c["kind"], "client": side(self.scn["client"]), "server": side(self.scn["server"])} for c in self.scn["calls"]]}

    # ---------------------------------------------------------------- handlers
    def methods(self):
        return {k: MethodInfo(name=n, service_name="svc.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.UNKNOWN) for k, n in KN.items()}

    def async_app(self):
        x = self

        async def read(request, i):
            p = []
            async for m in request:
                p = parts(m)
                x.log("rin", i, "handler", kv=p)
            x.log("rend", i, "handler")
            return p

        async def one(request, ctx, stream):
            i = x.idx(ctx)
            c = x.scn["calls"][i]
            x.log("enter", i, "handler", kv=[] if stream else parts(request))
            try:
                if c.get("early"):
                    raise x.boom(i, "handler", c["err"])
                p = (await read(request, i)) if stream else parts(request)
                if c.get("err"):
                    raise x.boom(i, "handler", c["err"])
                await x.hang(i)
                p = p + ["h"]
                x.log("ret", i, "handler", kv=p)
                return msg(p)
            except (asyncio.CancelledError, GeneratorExit) as e:
                x.log("closed", i, "handler", code="canceled" if isinstance(e, asyncio.CancelledError) else "")
                raise
            finally:
                x.log("exit", i, "handler")

        async def many(request, ctx, stream):
            i = x.idx(ctx)
            c = x.scn["calls"][i]
            x.log("enter", i, "handler", kv=[] if stream else parts(request))
            try:
                p = parts(request) if not stream else (await read(request, i) if not c.get("early") else [])
                for j in range(c.get("n", 0)):
                    q = p + ["y%d" % j]
                    x.log("item_out", i, "handler", kv=q)
                    yield msg(q)
                if c.get("err"):
                    raise x.boom(i, "handler", c["err"])
                await x.hang(i)
                x.log("eof_out", i, "handler")
            except (asyncio.CancelledError, GeneratorExit) as e:
                x.log("closed", i, "handler", code="canceled" if isinstance(e, asyncio.CancelledError) else "")
                raise
            finally:
                x.log("exit", i, "handler")

        async def u(r, c):
            return await one(r, c, False)

        async def cs(r, c):
            return await one(r, c, True)
        m = self.methods()
        eps = {"/svc.S/U": Endpoint.unary(m["unary"], u), "/svc.S/C": Endpoint.client_stream(m["client"], cs),
               "/svc.S/S": Endpoint.server_stream(m["server"], lambda r, c: many(r, c, False)),
               "/svc.S/B": Endpoint.bidi_stream(m["bidi"], lambda r, c: many(r, c, True))}
        return App(service=object(), endpoints=lambda s: eps, codecs=[RawCodec()],
                   interceptors=self.chain(self.scn["server"], "async", self.scn.get("form", "list")))

    def sync_app(self):
        x = self

        def read(request, i):
            p = []
            for m in request:
                p = parts(m)
                x.log("rin", i, "handler", kv=p)
            x.log("rend", i, "handler")
            return p

        def one(request, ctx, stream):
            i = x.idx(ctx)
            c = x.scn["calls"][i]
            x.log("enter", i, "handler", kv=[] if stream else parts(request))
            try:
                if c.get("early"):
                    raise x.boom(i, "handler", c["err"])
                p = read(request, i) if stream else parts(request)
                if c.get("err"):
                    raise x.boom(i, "handler", c["err"])
                p = p + ["h"]
                x.log("ret", i, "handler", kv=p)
                return msg(p)
            finally:
                x.log("exit", i, "handler")

        def many(request, ctx, stream):
            i = x.idx(ctx)
            c = x.scn["calls"][i]
            x.log("enter", i, "handler", kv=[] if stream else parts(request))
            try:
                p = parts(request) if not stream else (read(request, i) if not c.get("early") else [])
                for j in range(c.get("n", 0)):
                    q = p + ["y%d" % j]
                    x.log("item_out", i, "handler", kv=q)
                    yield msg(q)
                if c.get("err"):
                    raise x.boom(i, "handler", c["err"])
                x.log("eof_out", i, "handler")
            except GeneratorExit:
                x.log("closed", i, "handler")
                raise
            finally:
                x.log("exit", i, "handler")
        m = self.methods()
        eps = {"/svc.S/U": EndpointSync.unary(method=m["unary"], function=lambda r, c: one(r, c, False)),
               "/svc.S/C": EndpointSync.client_stream(method=m["client"], function=lambda r, c: one(r, c, True)),
               "/svc.S/S": EndpointSync.server_stream(method=m["server"], function=lambda r, c: many(r, c, False)),
               "/svc.S/B": EndpointSync.bidi_stream(method=m["bidi"], function=lambda r, c: many(r, c, True))}
        return WApp(endpoints=eps, codecs=[RawCodec()], interceptors=self.chain(self.scn["server"], "sync", self.scn.get("form", "list")))


def run(scn):
    scn = dict(scn, calls=[dict(c) for c in scn["calls"]])
    x = X(scn)
    cfg = x.cfg()
    (run_async if scn["flav"] == "async" else run_sync)(x)
    return {"cfg": cfg, "events": x.ev}


def run_async(x):
    scn = x.scn
    m = x.methods()

    async def main():
        app = x.async_app() if scn["api"] == "asgi" else x.sync_app()
        tr = AsyncToAsgi(app) if scn["api"] == "asgi" else AsyncToWsgi(app)
        client = ConnectClient(ADDR, codec=RawCodec(), protocol=PT[scn["proto"]], http_client=Client(tr),
                               interceptors=x.chain(scn["client"], "async", scn.get("form", "list")))

        async def one(i, c):
            if c.get("cut"):
                c["hung"], c["over"] = asyncio.Event(), asyncio.Event()
                task = asyncio.ensure_future(attempt(i, c))
                # when all is quiet
                await asyncio.wait({task}, timeout=4)
                if not task.done() and c["hung"].is_set():
                    c["was"] = True
                    x.log("cut", i, "caller", code={"cancel": "canceled", "timeout": "deadline_exceeded"}[c["cut"]])
                    if c["cut"] == "cancel":
                        task.cancel()
                await asyncio.wait({task})
                task.result()
                c["over"].set()
            else:
                await attempt(i, c)
            # what the call left behind on the client must be gone now
            if scn["api"] == "asgi" and not scn.get("par"):
                await tr.settle()

        async def attempt(i, c):
            kind = c["kind"]
            kw = {"method": m[kind], "headers": {"x-call": str(i)}}
            if c.get("cut") == "timeout":
                kw["timeout_ms"] = 5000

            async def gen():
                for j in range(c.get("nreq", 1)):
                    p = ["m%d" % j]
                    x.log("rout", i, "caller", kv=p)
                    yield msg(p)
                x.log("reof", i, "caller")
            x.log("pass", i, "caller", kv=["m0"])
            try:
                if kind == "unary":
                    x.log("got", i, "caller", kv=parts(await client.execute_unary(request=msg(["m0"]), **kw)))
                elif kind == "client":
                    x.log("got", i, "caller", kv=parts(await client.execute_client_stream(request=gen(), **kw)))
                else:
                    s = (client.execute_server_stream(request=msg(["m0"]), **kw) if kind == "server"
                         else client.execute_bidi_stream(request=gen(), **kw))
                    n = 0
                    while True:
                        if n == c.get("stop", -1):
                            x.log("closing", i, "caller")
                            await s.aclose()
                            break
                        try:
                            r = await s.__anext__()
                        except StopAsyncIteration:
                            x.log("eof_in", i, "caller")
                            break
                        n += 1
                        x.log("item_in", i, "caller", kv=parts(r))
            except Exception as e:
                x.log("caught", i, "caller", **x.ex(e))
        if scn.get("par"):
            await asyncio.gather(*(one(i, c) for i, c in enumerate(scn["calls"])))
        else:
            for i, c in enumerate(scn["calls"]):
                await one(i, c)
        if scn["api"] == "asgi":
            await tr.settle()
        x.ev.append(L("end_all"))
    _, err = run_virtual(main)
    if err:
        x.ev.append(L("crash", msg=err))


def run_sync(x):
    scn = x.scn
    m = x.methods()
    app = x.async_app() if scn["api"] == "asgi" else x.sync_app()
    tr = SyncToAsgi(app) if scn["api"] == "asgi" else SyncToWsgi(app)
    client = ConnectClientSync(ADDR, codec=RawCodec(), protocol=PT[scn["proto"]], http_client=SyncClient(tr),
                               interceptors=x.chain(scn["client"], "sync", scn.get("form", "list")))
    for i, c in enumerate(scn["calls"]):
        kind = c["kind"]
        kw = {"method": m[kind], "headers": {"x-call": str(i)}}

        def gen():
            for j in range(c.get("nreq", 1)):
                p = ["m%d" % j]
                x.log("rout", i, "caller", kv=p)
                yield msg(p)
            x.log("reof", i, "caller")
        x.log("pass", i, "caller", kv=["m0"])
        try:
            if kind == "unary":
                x.log("got", i, "caller", kv=parts(client.execute_unary(request=msg(["m0"]), **kw)))
            elif kind == "client":
                x.log("got", i, "caller", kv=parts(client.execute_client_stream(request=gen(), **kw)))
            else:
                s = (client.execute_server_stream(request=msg(["m0"]), **kw) if kind == "server"
                     else client.execute_bidi_stream(request=gen(), **kw))
                n = 0
                while True:
                    if n == c.get("stop", -1):
                        x.log("closing", i, "caller")
                        s.close()
                        break
                    try:
                        r = next(s)
                    except StopIteration:
                        x.log("eof_in", i, "caller")
                        break
                    n += 1
                    x.log("item_in", i, "caller", kv=parts(r))
        except Exception as e:
            x.log("caught", i, "caller", **x.ex(e))
    x.ev.append(L("end_all"))


def hung(scn):
    return {"cfg": {"calls": []}, "events": []}
