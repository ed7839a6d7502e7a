"""Response metadata scopes over tasks and threads, one step at a time (ResponseScope.tla)."""
import asyncio
import json
import queue
import threading

from pyqwest import Client, Headers, Response, SyncClient, SyncResponse

from connectrpc.client import ConnectClient, ConnectClientSync, ResponseMetadata
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType

from ..toys import Msg, RawCodec
from ..vloop import run_virtual
from ..wire import env

PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
ADDR = "http://h.example:81"


def E(ev, **kw):
    e = {"ev": ev, "w": 0, "s": 0, "c": 0, "code": "", "h": [], "t": []}
    e.update(kw)
    return e


def mi(n):
    return MethodInfo(name=n, service_name="s.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.UNKNOWN)


METHODS = {k: mi(k) for k in ("unary", "client", "server", "bidi")}


class Boom(Exception):
    pass


EXC = {"boom": Boom(), "gen": GeneratorExit(), "cancel": asyncio.CancelledError(), "kbd": KeyboardInterrupt(), "stop": StopIteration(), "exit": SystemExit(0),
       "err": ConnectError(Code.ABORTED, "x"), "time": TimeoutError(), "base": BaseException()}


def answer(proto, kind, c, want):
    """(status, headers, parts of the body, trailers)"""
    hs = [("x-id", str(c))]
    tid = str(c)
    if proto == "connect" and kind == "unary":
        hs.append(("trailer-x-tid", tid))
        if want == "err":
            return 409, hs + [("content-type", "application/json")], [json.dumps({"code": "aborted"}).encode()], []
        return 200, hs + [("content-type", "application/raw")], [b"m"], []
    msg = env(0, b"m")
    if proto == "connect":
        d = {"metadata": {"x-tid": [tid]}}
        if want == "err":
            d["error"] = {"code": "aborted"}
        end, tr = [env(2, json.dumps(d).encode())], []
        hs.append(("content-type", "application/connect+raw"))
    elif proto == "grpcweb":
        end, tr = [env(128, ("grpc-status: %d\r\nx-tid: %s\r\n" % (10 if want == "err" else 0, tid)).encode())], []
        hs.append(("content-type", "application/grpc-web+raw"))
    else:
        end, tr = [], [("grpc-status", "10" if want == "err" else "0"), ("x-tid", tid)]
        hs.append(("content-type", "application/grpc+raw"))
    if want == "lost":
        return 200, hs, [msg, ConnectionResetError("gone")], []
    return 200, hs, [msg] + end, tr


def heads(pairs):
    h = Headers()
    for k, v in pairs:
        h.add(k, v)
    return h


class Base:
    def __init__(self, scn):
        self.scn, self.ev = scn, []
        self.ncall = 0
        self.nscope = 0
        self.scopes = []
        self.stacks = {w: [] for w in range(1, scn["nw"] + 1)}
        self.info = {}

    def begin(self, w, kind, want):
        self.ncall += 1
        c = self.ncall
        self.info[c] = (kind, want)
        self.ev.append(E("begin", w=w, c=c))
        return c

    def done(self, c, e, aband=False):
        if e is None:
            code = "aband" if aband else "ok"
        elif isinstance(e, ConnectError):
            code = {"aborted": "err", "unavailable": "lost"}.get(e.code.value, e.code.value)
        else:
            code = "raw:" + type(e).__name__
        self.ev.append(E("done", c=c, code=code))

    def enter(self, w):
        self.nscope += 1
        rm = ResponseMetadata()
        got = rm.__enter__()
        self.stacks[w].append((self.nscope, rm))
        self.scopes.append(rm)
        self.ev.append(E("enter", w=w, s=self.nscope, code="ok" if got is rm else "other"))

    def exit(self, w, exc):
        s, rm = self.stacks[w].pop()
        code = "ok"
        try:
            if exc:
                try:
                    raise EXC[exc]
                except BaseException as e:
                    if rm.__exit__(type(e), e, e.__traceback__):
                        code = "swallowed"
            else:
                rm.__exit__(None, None, None)
        except Exception as e:
            code = type(e).__name__
        self.ev.append(E("exit", w=w, s=s, code=code))

    def obs(self):
        for i, rm in enumerate(self.scopes):
            def ids(h, n):
                try:
                    if any(k not in (n, "content-type") and not k.startswith("grpc-") for k, _ in h.allitems()):
                        return [99]
                    return [int(v) for v in h.getall(n)] if n in h else []
                except Exception:
                    return [98]
            self.ev.append(E("obs", s=i + 1, h=ids(rm.headers, "x-id"), t=ids(rm.trailers, "x-tid")))

    def cfg(self):
        return {"workers": self.scn["nw"], "scopes": max(1, self.nscope), "calls": self.ncall}


def held(kind):
    return kind.startswith("h")


def base_kind(kind):
    return kind[1:] if held(kind) else kind


def run_async(scn):
    x = Base(scn)
    proto = scn["proto"]

    async def main():
        gates, acks, qs = {}, {}, {w: asyncio.Queue() for w in range(1, scn["nw"] + 1)}
        cur = {}

        class T:
            async def execute(self, request):
                c = int(request.headers["x-call"])
                kind, want = x.info[c]
                if not isinstance(request.content, (bytes, bytearray)):
                    async for _ in request.content:
                        pass
                if held(kind):
                    acks.pop(cur[c]).set()
                    await gates[c].wait()
                if want == "lost" and base_kind(kind) in ("unary", "client"):
                    raise ConnectionResetError("gone")
                st, hs, parts, tr = answer(proto, base_kind(kind), c, want)

                async def content():
                    for p in parts:
                        await asyncio.sleep(0)
                        if isinstance(p, Exception):
                            raise p
                        yield p
                return Response(status=st, headers=heads(hs), content=content(), trailers=heads(tr))

        class S:
            def execute_sync(self, request):
                c = int(request.headers["x-call"])
                kind, want = x.info[c]
                if not isinstance(request.content, (bytes, bytearray)):
                    list(request.content)
                if want == "lost":
                    raise ConnectionResetError("gone")
                st, hs, parts, tr = answer(proto, kind, c, want)
                return SyncResponse(status=st, headers=heads(hs), content=iter(parts), trailers=heads(tr))
        client = ConnectClient(ADDR, codec=RawCodec(), protocol=PT[proto], accept_compression=[], http_client=Client(T()))
        sclient = ConnectClientSync(ADDR, codec=RawCodec(), protocol=PT[proto], accept_compression=[], http_client=SyncClient(S()))
        tasks = []

        async def reqs():
            yield Msg(b"q")

        async def worker(w):
            stream = None
            while True:
                op = await qs[w].get()
                if op is None:
                    return
                o = op[1]
                if o == "enter":
                    x.enter(w)
                elif o in ("exit", "exitx"):
                    x.exit(w, op[2] if o == "exitx" else "")
                elif o == "fork":
                    tasks.append(asyncio.create_task(worker(op[2])))
                elif o == "call":
                    kind, want, sync = op[2:]
                    c = x.begin(w, kind, want)
                    h = {"x-call": str(c)}
                    try:
                        if sync and kind == "unary":
                            sclient.execute_unary(request=Msg(b"q"), method=METHODS["unary"], headers=h)
                        elif sync:
                            sclient.execute_client_stream(request=iter([Msg(b"q")]), method=METHODS["client"], headers=h)
                        elif kind == "unary":
                            await client.execute_unary(request=Msg(b"q"), method=METHODS["unary"], headers=h)
                        else:
                            await client.execute_client_stream(request=reqs(), method=METHODS["client"], headers=h)
                        x.done(c, None)
                    except Exception as e:
                        x.done(c, e)
                elif o == "open":
                    kind, want = op[2:4]
                    k = base_kind(kind)
                    c = x.begin(w, kind, want)
                    cur[c] = w
                    gates[c] = asyncio.Event()
                    cur["w%d" % w] = c
                    h = {"x-call": str(c)}
                    stream = None
                    try:
                        if k == "unary":
                            await client.execute_unary(request=Msg(b"q"), method=METHODS["unary"], headers=h)
                            x.done(c, None)
                        else:
                            stream = (client.execute_server_stream(request=Msg(b"q"), method=METHODS["server"], headers=h) if k == "server"
                                      else client.execute_bidi_stream(request=reqs(), method=METHODS["bidi"], headers=h))
                            await stream.__anext__()
                            x.ev.append(E("first", c=c))
                            if held(kind):
                                await finish(c, stream)
                                stream = None
                    except Exception as e:
                        x.done(c, e)
                        stream = None
                elif o in ("end", "drop"):
                    c = cur.get("w%d" % w)
                    if stream is not None:
                        if o == "end":
                            await finish(c, stream)
                        else:
                            await stream.aclose()
                            x.done(c, None, True)
                        stream = None
                a = acks.pop(w, None)
                if a:
                    a.set()

        async def finish(c, stream):
            try:
                async for _ in stream:
                    pass
                x.done(c, None)
            except Exception as e:
                x.done(c, e)
        forked = {o[2] for o in scn["ops"] if o[1] == "fork"}
        for w in qs:
            if w not in forked:
                tasks.append(asyncio.create_task(worker(w)))
        for op in scn["ops"]:
            w, o = op[:2]
            a = acks[w] = asyncio.Event()
            c = cur.get("w%d" % w)
            if o in ("end", "drop") and c and held(x.info[c][0]) and not gates[c].is_set():
                gates[c].set()  # the call goes on; its worker acknowledges when it is over
            else:
                qs[w].put_nowait(op)
            await a.wait()
            x.obs()
        for w in qs:
            qs[w].put_nowait(None)
        await asyncio.wait(tasks)
    _, err = run_virtual(main)
    if err:
        x.ev.append(E("deadlock", code=err))
    return {"cfg": x.cfg(), "events": x.ev}


def run_sync(scn):
    x = Base(scn)
    proto = scn["proto"]
    gates, acks, qs, cur = {}, {}, {w: queue.Queue() for w in range(1, scn["nw"] + 1)}, {}

    class S:
        def execute_sync(self, request):
            c = int(request.headers["x-call"])
            kind, want = x.info[c]
            if not isinstance(request.content, (bytes, bytearray)):
                list(request.content)
            if held(kind):
                acks.pop(cur[c]).set()
                gates[c].wait()
            if want == "lost" and base_kind(kind) in ("unary", "client"):
                raise ConnectionResetError("gone")
            st, hs, parts, tr = answer(proto, base_kind(kind), c, want)

            def content():
                for p in parts:
                    if isinstance(p, Exception):
                        raise p
                    yield p
            return SyncResponse(status=st, headers=heads(hs), content=content(), trailers=heads(tr))
    client = ConnectClientSync(ADDR, codec=RawCodec(), protocol=PT[proto], accept_compression=[], http_client=SyncClient(S()))
    threads = []

    def start(w):
        t = threading.Thread(target=worker, args=(w,), daemon=True)
        threads.append(t)
        t.start()

    def finish(c, stream):
        try:
            for _ in stream:
                pass
            x.done(c, None)
        except Exception as e:
            x.done(c, e)

    def worker(w):
        stream = None
        while True:
            op = qs[w].get()
            if op is None:
                return
            o = op[1]
            if o == "enter":
                x.enter(w)
            elif o in ("exit", "exitx"):
                x.exit(w, op[2] if o == "exitx" else "")
            elif o == "fork":
                start(op[2])
            elif o in ("call", "open"):
                kind, want = op[2:4]
                k = base_kind(kind)
                c = x.begin(w, kind, want)
                if o == "open":
                    cur[c] = w
                    gates[c] = threading.Event()
                    cur["w%d" % w] = c
                    stream = None
                h = {"x-call": str(c)}
                try:
                    if k == "unary":
                        client.execute_unary(request=Msg(b"q"), method=METHODS["unary"], headers=h)
                        x.done(c, None)
                    elif k == "client":
                        client.execute_client_stream(request=iter([Msg(b"q")]), method=METHODS["client"], headers=h)
                        x.done(c, None)
                    else:
                        stream = (client.execute_server_stream(request=Msg(b"q"), method=METHODS["server"], headers=h) if k == "server"
                                  else client.execute_bidi_stream(request=iter([Msg(b"q")]), method=METHODS["bidi"], headers=h))
                        next(stream)
                        x.ev.append(E("first", c=c))
                        if held(kind):
                            finish(c, stream)
                            stream = None
                except Exception as e:
                    x.done(c, e)
                    if o == "open":
                        stream = None
            elif o in ("end", "drop"):
                c = cur.get("w%d" % w)
                if stream is not None:
                    c = cur["w%d" % w]
                    if o == "end":
                        finish(c, stream)
                    else:
                        stream.close()
                        x.done(c, None, True)
                    stream = None
            a = acks.pop(w, None)
            if a:
                a.set()
    forked = {o[2] for o in scn["ops"] if o[1] == "fork"}
    for w in qs:
        if w not in forked:
            start(w)
    for op in scn["ops"]:
        w, o = op[:2]
        a = acks[w] = threading.Event()
        c = cur.get("w%d" % w)
        if o in ("end", "drop") and c and held(x.info[c][0]) and not gates[c].is_set():
            gates[c].set()
        else:
            qs[w].put(op)
        if not a.wait(20):
            x.ev.append(E("deadlock"))
            break
        x.obs()
    for w in qs:
        qs[w].put(None)
    return {"cfg": x.cfg(), "events": x.ev}


def run(scn):
    return run_async(scn) if scn["flav"] == "async" else run_sync(scn)
