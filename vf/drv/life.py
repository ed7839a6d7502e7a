"""Lifespan conversations with a real ASGI application (Lifespan.tla)."""
import asyncio
import contextlib
import gc
import urllib.parse

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import Endpoint

from ..toys import Msg, RawCodec
from ..vloop import run_virtual
from ..wire import env
from .server import App


def E(ev, **kw):
    e = {"ev": ev, "n": 0, "id": 0, "code": "", "msg": "", "ok": False}
    e.update(kw)
    return e


class Svc:
    tag = 1

    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth


def run(scn):
    ev = []
    log = ev.append
    svc = {"obj": Svc(True), "falsy": Svc(False), "none": None, "zero": 0}[scn["svc"]]

    async def main():
        go = asyncio.Event()
        hold = asyncio.Event()

        def ident(s):
            return 1 if s is svc else 2

        def fail():
            m = scn["msg"]
            if scn["exc"] == "ConnectError":
                return ConnectError(Code.UNAVAILABLE, m)
            return {"RuntimeError": RuntimeError, "ValueError": ValueError, "KeyError": KeyError, "OSError": OSError}[scn["exc"]](m)

        async def service():
            log(E("g_begin"))
            text, bad, how = "", False, "resumed"
            try:
                if scn["slow"] in ("start", "both"):
                    await go.wait()
                    go.clear()
                if scn["gstart"] == "raise":
                    e = fail()
                    text, bad = str(e), True
                    raise e
                if scn["gstart"] == "empty":
                    return
                try:
                    log(E("g_yield"))
                    yield svc
                except GeneratorExit:
                    how = "closed"
                    if scn["slow"] in ("stop", "both"):
                        await go.wait()
                        go.clear()
                    if scn["gstop"] == "raise":
                        e = fail()
                        text, bad = str(e), True
                        raise e
                    if scn["gstop"] == "swallow":
                        return
                    raise
            finally:
                log(E("g_exit", code=how, msg=text, ok=bad))

        def endpoints(s):
            i = ident(s)
            log(E("resolve", id=i))

            async def u(req, ctx):
                if req.data == b"slow":
                    await hold.wait()
                return Msg(b"%d" % i)

            async def st(req, ctx):
                if req.data == b"slow":
                    await hold.wait()
                yield Msg(b"%d" % i)
            if scn["empty"]:
                return {}
            mi = lambda n: MethodInfo(name=n, service_name="s.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS)
            return {"/s.S/U": Endpoint.unary(mi("U"), u), "/s.S/T": Endpoint.server_stream(mi("T"), st)}
        app = App(service=service() if scn["kind"] == "gen" else svc, endpoints=endpoints, codecs=[RawCodec()], compressions=[])
        life = {"task": None, "q": None, "waiting": False}

        def begin():
            q = life["q"] = asyncio.Queue()
            life["seen"] = set()

            async def receive():
                life["waiting"] = True
                m = await q.get()
                life["waiting"] = False
                log(E({"lifespan.startup": "m_start", "lifespan.shutdown": "m_stop"}.get(m["type"], "m_other")))
                return m

            async def send(m):
                log(E("sent", code=m["type"], msg=m.get("message", "")))

            async def task():
                log(E("life_start"))
                try:
                    await app({"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}, receive, send)
                    log(E("life_end", code="return"))
                except asyncio.CancelledError:
                    raise
                except BaseException as e:
                    log(E("life_end", code="raise:" + type(e).__name__, msg=str(e)[:80]))
            life["task"] = asyncio.ensure_future(task())
        nreq = [0]
        reqs = []

        async def req(slow=False):
            nreq[0] += 1
            n = nreq[0]
            log(E("req", n=n))
            k = scn["kindreq"]
            data = b"slow" if slow else b"q"
            body = b"" if k == "get" else env(0, data) if k == "stream" else data
            sc = {"type": "http", "http_version": "1.1", "method": "GET" if k == "get" else "POST", "path": "/s.S/T" if k == "stream" else "/s.S/U",
                  "root_path": "", "query_string": b"" if k != "get" else b"connect=v1&encoding=raw&message=" + urllib.parse.quote(data).encode(),
                  "headers": [] if k == "get" else [(b"content-type", b"application/connect+raw" if k == "stream" else b"application/raw")],
                  "client": ("1.1.1.1", 1), "extensions": {}}
            out, st, got = b"", [], [0]

            async def receive():
                got[0] += 1
                if got[0] == 1:
                    return {"type": "http.request", "body": body, "more_body": False}
                await asyncio.Event().wait()

            async def send(m):
                nonlocal out
                if m["type"] == "http.response.start":
                    st.append(m["status"])
                else:
                    out += m.get("body", b"")
            try:
                await app(sc, receive, send)
                if st == [404]:
                    log(E("req_end", n=n, code="missing"))
                elif st == [200]:
                    d = out if k != "stream" else out[5:6]
                    log(E("req_end", n=n, code="served", id=int(d) if d in (b"1", b"2") else 3))
                else:
                    log(E("req_end", n=n, code="status %s" % st))
            except RuntimeError as e:
                log(E("req_end", n=n, code="refused" if not st else "half", ok="lifespan" in str(e).lower()))
            except Exception as e:
                log(E("req_end", n=n, code="raise:" + type(e).__name__))

        async def ws():
            sent = []

            async def receive():
                return {"type": "websocket.connect"}

            async def send(m):
                sent.append(m["type"])
            try:
                await app({"type": "websocket", "path": "/s.S/U", "root_path": "", "headers": [], "query_string": b"", "subprotocols": []}, receive, send)
                log(E("ws", code="refused" if sent in (["websocket.close"], ["websocket.http.response.start", "websocket.http.response.body"]) else "other"))
            except asyncio.CancelledError:
                raise
            except Exception:
                log(E("ws", code="refused" if "websocket.accept" not in sent else "other"))

        async def settle():
            for _ in range(12):
                await asyncio.sleep(0)
        begin()
        await settle()
        for o in scn["ops"]:
            if o in ("start", "stop") and (o in life["seen"] or "stop" in life["seen"]):
                continue  # no server sends these twice
            life["seen"].add(o)
            if o in ("start", "stop", "other"):
                life["q"].put_nowait({"type": {"start": "lifespan.startup", "stop": "lifespan.shutdown", "other": "lifespan.custom"}[o]})
            elif o == "go":
                go.set()
            elif o == "req":
                await req()
            elif o == "slowreq":
                reqs.append(asyncio.ensure_future(req(True)))
            elif o == "fin":
                hold.set()
            elif o == "ws":
                await ws()
            elif o == "again" and life["task"].done():
                begin()
            await settle()
        hold.set()
        for _ in range(4):
            go.set()
            await settle()
        if reqs:
            await asyncio.wait(reqs)
        t = life["task"]
        if not t.done() and life["waiting"] and life["q"].empty():
            t.cancel()  # the server goes away without a shutdown
            with contextlib.suppress(asyncio.CancelledError):
                await t
            life["gone"] = True
        log(E("end", ok=t.done()))
        n = len(ev)
        await settle()
        gc.collect(0)
        await settle()
        del ev[n:]
    _, err = run_virtual(main)
    cut = [i for i, e in enumerate(ev) if e["ev"] == "end"]
    if cut:
        del ev[cut[0] + 1:]
    if err:
        ev.append(E("deadlock", msg=err))
    return {"cfg": {"kind": scn["kind"], "svc": 1, "empty": scn["empty"]}, "events": ev}
