"""Real clients against real applications over in-process transports (EndToEnd.tla)."""
import asyncio
import base64
import contextlib
import contextvars
import json
import random
import threading
import time
import urllib.parse

from google.protobuf import struct_pb2, wrappers_pb2
from protobuf.wkt import Any as PbAny
from protobuf.wkt import BytesValue, Duration, Int64Value, StringValue, Struct, Timestamp
from pyqwest import Client, SyncClient

from connectrpc.client import ConnectClient, ConnectClientSync, ResponseMetadata
from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_json_codec
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError, ErrorDetail
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers as RpcHeaders
from connectrpc.server import Endpoint, EndpointSync

from ..bridge import BAD_BODY, AsyncToAsgi, AsyncToWsgi, SyncToAsgi, SyncToWsgi
from ..toys import Intern, Msg, TagCodec, ToyComp, payload
from ..vloop import run_virtual
from ..wire import ENC_H, E, skv
from .server import App, WApp

PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
COMP = {"gzip": GzipCompression(), "br": BrotliCompression(), "zstd": ZstdCompression(), "toy": ToyComp("toy"), "toy2": ToyComp("toy2")}
CODEC = {"raw": TagCodec("raw"), "proto": proto_binary_codec(), "json": proto_json_codec(),
         "gproto": google_protobuf_binary_codec(), "gjson": google_protobuf_json_codec()}
ONWIRE = {"raw": "raw", "proto": "proto", "json": "json", "gproto": "proto", "gjson": "json"}
B64 = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
ADDR = "http://h.example:81"


class Types:
    """message class and values of a codec family"""

    def __init__(self, codec, mtype):
        self.codec, self.mtype = codec, mtype
        if codec == "raw":
            self.cls = Msg
        elif codec.startswith("g"):
            self.cls = {"bytes": wrappers_pb2.BytesValue, "string": wrappers_pb2.StringValue, "int": wrappers_pb2.Int64Value,
                        "struct": struct_pb2.Struct}[mtype]
        else:
            self.cls = {"bytes": BytesValue, "string": StringValue, "int": Int64Value, "struct": Struct}[mtype]

    def make(self, v):
        t = self.mtype
        if self.codec == "raw":
            return Msg(self.raw(v))
        if t == "bytes":
            return self.cls(value=self.raw(v))
        if t == "string":
            return self.cls(value=v[1] if v[0] == "s" else "m%d" % v[1])
        if t == "int":
            return self.cls(value=v[1])
        d = v[1] if v[0] == "j" else {"id": float(v[1])}
        if self.codec.startswith("g"):
            m = self.cls()
            m.update(d)
            return m
        return self.cls.from_json(json.dumps(d))

    def raw(self, v):
        return payload(v[1], v[2]) if v[0] == "b" else str(v[1]).encode()

    def canon(self, m):
        if not isinstance(m, self.cls):
            return b"?" + type(m).__name__.encode()
        if self.codec == "raw":
            return m.data
        if self.mtype == "struct":
            s = m.to_json() if not self.codec.startswith("g") else __import__("google.protobuf.json_format", fromlist=["x"]).MessageToJson(m)
            return json.dumps(json.loads(s), sort_keys=True).encode()
        v = m.value
        return repr(v).encode()


DET = {"str": lambda v: StringValue(value=v), "dur": lambda v: Duration(seconds=v), "ts": lambda v: Timestamp(seconds=v),
       "bytes": lambda v: BytesValue(value=bytes(v)), "st": lambda v: Struct.from_json(json.dumps(v)),
       "any": lambda v: PbAny(type_url="type.googleapis.com/" + v[0], value=bytes(v[1])),
       "edany": lambda v: ErrorDetail(PbAny(type_url="type.googleapis.com/" + v[0], value=bytes(v[1])))}


def det_kv(e):
    out = []
    for d in e.details:
        out.append([d.type_name, bytes(d.message_bytes).hex()])
    return out


class Ctx:
    def __init__(self, scn):
        self.scn = scn
        self.ev = []
        self.it = Intern()
        self.T = Types(scn["codec"], scn.get("mtype", "bytes"))
        self.lock = threading.Lock()
        self.kept = []

    def log(self, ev, c, **kw):
        e = E(ev, **kw)
        e["c"] = c + 1
        self.ev.append(e)

    def put(self, m):
        with self.lock:
            return self.it.put(self.T.canon(m))

    def get(self, m):
        with self.lock:
            return self.it.get(self.T.canon(m))

    # ---- configuration as the specification needs it
    def cfg(self):
        s = self.scn
        calls = []
        for c in s["calls"]:
            plain = s["proto"] == "connect" and c["kind"] == "unary"
            n = ONWIRE[s["codec"]]
            ct = ("application/" if plain else {"connect": "application/connect+", "grpc": "application/grpc+",
                                                "grpcweb": "application/grpc-web+"}[s["proto"]]) + n
            t = c.get("tmo") or s.get("tmo")
            if t is None:
                tms = -1
            elif s["proto"] == "connect" or t < 10 ** 8:
                tms = t
            else:
                u = 1000 if t < 10 ** 11 else 60000 if t < 6 * 10 ** 12 else 3600000
                tms = t // u * u
            calls.append({"kind": c["kind"], "hdrs": skv(self.hdr_list(c)), "tms": min(tms, 2000000000),
                          "verb": "GET" if c.get("get") else "POST", "reqct": "" if c.get("get") else ct, "resct": ct,
                          "reqenc": s.get("send") or "identity", "accept": (s["accept"] if s.get("accept") is not None else ["gzip"]),
                          "supported": (s["supp"] if s.get("supp") is not None else ["gzip"]), "stop": c.get("stop", -1)})
        return {"multi": len(calls) > 1, "calls": calls}

    def hdr_list(self, c):
        return [("x-call", str(c["i"]))] + [tuple(p) for p in c.get("hdrs", [])]

    def hdr_obj(self, c):
        l = self.hdr_list(c)
        form = c.get("form", "headers")
        if form == "dict":
            return dict(l)
        if form == "tuple":
            return RpcHeaders(tuple(l))
        h = RpcHeaders()
        for k, v in l:
            h.add(k, v)
        return h

    @staticmethod
    def snap(h):
        return list(h.allitems()) if isinstance(h, RpcHeaders) else sorted(h.items())

    def user(self, h):
        out = []
        for k, v in h.allitems():
            k = k.lower()
            if k.startswith(("x-", "trailer-x")) or (k == "user-agent" and self.ua):
                if self.scn["api"] == "wsgi" and k != "user-agent":
                    out += [(k, x.strip()) for x in v.split(",")]
                else:
                    out.append((k, v))
        return skv(out)

    def wire(self, request, status, hs):
        """labels on the wire"""
        try:
            i = int(request.headers.get("x-call")) if request.headers.get("x-call") is not None else -1
        except ValueError:
            i = -1
        s = self.scn
        if not 0 <= i < len(s["calls"]):
            self.ev.append(dict(E("crash", msg="request without its headers"), c=1))
            return
        c = s["calls"][i]
        plain = s["proto"] == "connect" and c["kind"] == "unary"
        en = "content-encoding" if plain else ENC_H[s["proto"]]
        q = urllib.parse.parse_qs(urllib.parse.urlsplit(request.url).query)
        renc = q.get("compression", ["identity"])[0] if c.get("get") else (request.headers.get(en) or "identity")

        def h(n):
            v = [b for a, b in hs if a.lower() == n]
            return ",".join(v)
        self.log("x_head", i, n=status, kv=[request.headers.get("content-type") or "", h("content-type"), renc, h(en) or "identity"])

        if c.get("get"):
            # the query of a GET, read by the letter of the protocol
            try:
                p = urllib.parse.parse_qs(urllib.parse.urlsplit(request.url).query, keep_blank_values=True, strict_parsing=True)
                m = p["message"][0]
                if p.get("base64") == ["1"]:
                    if not set(m.rstrip("=")) <= B64:
                        raise ValueError("alphabet")
                    m = base64.urlsafe_b64decode(m + "=" * (-len(m) % 4))
                else:
                    m = m.encode()
                if renc != "identity":
                    m = COMP[renc].decompress(m)
                m = CODEC[s["codec"]].decode(bytes(m), self.T.cls)
                ok = (all(len(v) == 1 for v in p.values()) and p["encoding"] == [ONWIRE[s["codec"]]]
                      and p.get("connect", ["v1"]) == ["v1"] and not request.content)
                self.log("x_get", i, id=self.get(m), ok=ok)
            except Exception:
                self.log("x_get", i, id=-9)

    def meta(self, i, rm, obj, before):
        c = self.scn["calls"][i]

        def only(h):
            return skv([(k, v) for k, v in h.allitems() if k.lower().startswith(("x-", "trailer-x"))])
        self.log("c_hdrs", i, kv=only(rm.headers))
        self.log("c_trls", i, kv=only(rm.trailers))
        self.log("c_same", i, ok=self.snap(obj) == before)

    def err(self, i, e):
        # callers keep errors, and with them the frames they came through
        self.kept.append(e)
        if str(i) in BAD_BODY:
            BAD_BODY.remove(str(i))
            self.log("x_bad", i)
        if isinstance(e, ConnectError):
            self.log("c_err", i, code=e.code.value, msg=e.message, kv=det_kv(e))
        else:
            self.log("c_err", i, code="raw", msg=type(e).__name__ + ": " + str(e)[:100])

    def which(self, ctx):
        v = ctx.request_headers.getall("x-call") if "x-call" in ctx.request_headers else []
        i = int(v[0].split(",")[0]) if v else -1
        if not 0 <= i < len(self.scn["calls"]):
            self.ev.append(dict(E("crash", msg="handler without its headers"), c=1))
            raise RuntimeError("no x-call")
        return i

    def h_start(self, i, ctx):
        t = ctx.timeout_ms
        self.log("h_start", i, kv=self.user(ctx.request_headers), n=-1 if t is None else max(-2, min(2000000000, int(round(t)))),
                 msg=ctx.http_method)

    def do_raise(self, i, op):
        if op[0] == "raise":
            e = ConnectError(Code(op[1]), op[2], details=[DET[k](v) for k, v in op[3]])
            self.log("h_raise", i, code=op[1], msg=op[2], kv=det_kv(e))
            raise e
        cls = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "OSError": OSError,
               "TimeoutError": TimeoutError, "Lookup": LookupError, "Arith": ArithmeticError}[op[1]]
        e = cls(op[2])
        self.log("h_raise", i, code="unknown", msg=str(e))
        raise e

    def h_meta(self, i, ctx, op, acc):
        if op[0] == "hdr":
            ctx.response_headers.add(op[1], op[2])
            acc[0].append((op[1], op[2]))
            self.log("h_hdr", i, kv=skv(acc[0]))
        else:
            ctx.response_trailers.add(op[1], op[2])
            acc[1].append((op[1], op[2]))
            self.log("h_trl", i, kv=skv(acc[1]))

    def spy(self, side, key):
        """a metadata interceptor checking that it gets its own call's token back"""
        s = self.scn
        if not s.get("spy"):
            return {}
        x = self

        def begin(ctx):
            i = x.which(ctx)
            x.log("i_start", i, n=side)
            return [i, ctx]

        def finish(token, ctx, error):
            i = x.which(ctx)
            x.log("i_end", i, n=side, ok=isinstance(token, list) and token[0] == i and token[1] is ctx)

        class A:
            async def on_start(self, ctx):
                if side == 2 and "sched" in s:
                    await asyncio.sleep(0)
                return begin(ctx)

            async def on_end(self, token, ctx, error):
                finish(token, ctx, error)

        class B:
            def on_start_sync(self, ctx):
                return begin(ctx)

            def on_end_sync(self, token, ctx, error):
                finish(token, ctx, error)
        return {"interceptors": [A() if key else B()]}

    def methods(self):
        mk = lambda n, l=IdempotencyLevel.UNKNOWN: MethodInfo(name=n, service_name="svc.S", input=self.T.cls, output=self.T.cls, idempotency_level=l)
        return {"unary": mk("U"), "get": mk("G", IdempotencyLevel.NO_SIDE_EFFECTS), "client": mk("C"), "server": mk("S"), "bidi": mk("B")}

    # ---- handlers, asynchronous
    def async_ops(self, i, script, reqit, ctx, acc, rng):
        async def ops():
            for op in script:
                k = op[0]
                if k in ("hdr", "trl"):
                    self.h_meta(i, ctx, op, acc)
                elif k in ("raise", "rawraise"):
                    self.do_raise(i, op)
                elif k == "sleep":
                    for _ in range(op[1]):
                        await asyncio.sleep(0)
                elif k in ("read", "readall", "echo"):
                    while True:
                        try:
                            m = await reqit.__anext__()
                        except StopAsyncIteration:
                            self.log("h_eof", i)
                            break
                        except BaseException as e:
                            self.log("h_rerr", i, code=e.code.value if isinstance(e, ConnectError) else type(e).__name__)
                            if isinstance(e, ConnectError):
                                self.log("h_raise", i, code=e.code.value, msg=e.message)
                            raise
                        self.log("h_msg", i, id=self.get(m))
                        if k == "echo":
                            yield m
                        if k == "read":
                            break
                elif k in ("yield", "ret"):
                    yield self.T.make(op[1])
        return ops()

    def async_app(self):
        async def gen(request, ctx, single):
            i = self.which(ctx)
            c = self.scn["calls"][i]
            self.h_start(i, ctx)
            acc = ([], [])
            try:
                if single:
                    self.log("h_msg", i, id=self.get(request))
                    self.log("h_eof", i)
                async with contextlib.aclosing(self.async_ops(i, c["script"], request, ctx, acc, None)) as ops:
                    async for m in ops:
                        self.log("h_yield", i, id=self.put(m))
                        yield m
                        self.log("h_resume", i)
                self.log("h_done", i)
            finally:
                self.log("h_exit", i)

        async def fn(request, ctx, single):
            i = self.which(ctx)
            c = self.scn["calls"][i]
            self.h_start(i, ctx)
            acc = ([], [])
            try:
                if single:
                    self.log("h_msg", i, id=self.get(request))
                    self.log("h_eof", i)
                async with contextlib.aclosing(self.async_ops(i, c["script"], request, ctx, acc, None)) as ops:
                    async for m in ops:
                        self.log("h_ret", i, id=self.put(m))
                        return m
                raise RuntimeError("script without return")
            finally:
                self.log("h_exit", i)

        async def u(r, x):
            return await fn(r, x, True)

        async def cs(r, x):
            return await fn(r, x, False)

        def ss(r, x):
            return gen(r, x, True)

        def bs(r, x):
            return gen(r, x, False)
        m = self.methods()
        eps = {"/svc.S/U": Endpoint.unary(m["unary"], u), "/svc.S/G": Endpoint.unary(m["get"], u),
               "/svc.S/C": Endpoint.client_stream(m["client"], cs), "/svc.S/S": Endpoint.server_stream(m["server"], ss),
               "/svc.S/B": Endpoint.bidi_stream(m["bidi"], bs)}
        return App(service=object(), endpoints=lambda s: eps, **self.spy(2, True), **self.server_conf())

    # ---- handlers, synchronous
    def sync_ops(self, i, script, reqit, ctx, acc):
        for op in script:
            k = op[0]
            if k in ("hdr", "trl"):
                self.h_meta(i, ctx, op, acc)
            elif k in ("raise", "rawraise"):
                self.do_raise(i, op)
            elif k == "sleep":
                if len(self.scn["calls"]) > 1 and self.scn["flav"] == "sync":
                    time.sleep(0.0005 * (op[1] % 4))
            elif k in ("read", "readall", "echo"):
                while True:
                    try:
                        m = next(reqit)
                    except StopIteration:
                        self.log("h_eof", i)
                        break
                    except GeneratorExit:
                        raise
                    except BaseException as e:
                        self.log("h_rerr", i, code=e.code.value if isinstance(e, ConnectError) else type(e).__name__)
                        raise
                    self.log("h_msg", i, id=self.get(m))
                    if k == "echo":
                        yield m
                    if k == "read":
                        break
            elif k in ("yield", "ret"):
                yield self.T.make(op[1])

    def sync_app(self):
        def gen(request, ctx, single):
            i = self.which(ctx)
            c = self.scn["calls"][i]
            self.h_start(i, ctx)
            acc = ([], [])
            try:
                if single:
                    self.log("h_msg", i, id=self.get(request))
                    self.log("h_eof", i)
                for m in self.sync_ops(i, c["script"], request, ctx, acc):
                    self.log("h_yield", i, id=self.put(m))
                    yield m
                    self.log("h_resume", i)
                self.log("h_done", i)
            finally:
                self.log("h_exit", i)

        def fn(request, ctx, single):
            i = self.which(ctx)
            c = self.scn["calls"][i]
            self.h_start(i, ctx)
            acc = ([], [])
            try:
                if single:
                    self.log("h_msg", i, id=self.get(request))
                    self.log("h_eof", i)
                for m in self.sync_ops(i, c["script"], request, ctx, acc):
                    self.log("h_ret", i, id=self.put(m))
                    return m
                raise RuntimeError("script without return")
            finally:
                self.log("h_exit", i)
        m = self.methods()
        eps = {"/svc.S/U": EndpointSync.unary(method=m["unary"], function=lambda r, x: fn(r, x, True)),
               "/svc.S/G": EndpointSync.unary(method=m["get"], function=lambda r, x: fn(r, x, True)),
               "/svc.S/C": EndpointSync.client_stream(method=m["client"], function=lambda r, x: fn(r, x, False)),
               "/svc.S/S": EndpointSync.server_stream(method=m["server"], function=lambda r, x: gen(r, x, True)),
               "/svc.S/B": EndpointSync.bidi_stream(method=m["bidi"], function=lambda r, x: gen(r, x, False))}
        return WApp(endpoints=eps, **self.spy(2, False), **self.server_conf())

    def server_conf(self):
        s = self.scn
        cs = [CODEC[s["codec"]]]
        if s.get("morecodecs"):
            other = {"raw": ["proto"], "proto": ["json"], "json": ["proto"], "gproto": ["gjson"], "gjson": ["gproto"]}[s["codec"]]
            cs = [CODEC[o] for o in other] + cs
        if s["codec"] in ("proto", "json") and s.get("defcodecs"):
            cs = None
        return {"codecs": cs, "compressions": None if s.get("supp") is None else [COMP[x] for x in s["supp"]]}

    def client_conf(self):
        s = self.scn
        return {"codec": None if s["codec"] == "proto" and s.get("defcodecs") else CODEC[s["codec"]], "protocol": PT[s["proto"]],
                "timeout_ms": s.get("tmo"), "accept_compression": None if s.get("accept") is None else [COMP[a] for a in s["accept"]],
                "send_compression": COMP.get(s.get("send") or "")}


def run(scn):
    x = Ctx(scn)
    BAD_BODY.clear()
    for i, c in enumerate(scn["calls"]):
        c["i"] = i
    x.ua = any(k == "user-agent" for c in scn["calls"] for k, _ in c.get("hdrs", []))
    return run_async(x) if scn["flav"] == "async" else run_sync(x)


def run_async(x):
    scn = x.scn
    cfg = x.cfg()
    methods = x.methods()
    rng = random.Random(scn.get("sched", 0))
    pat = scn.get("pat")

    async def main():
        app = x.async_app() if scn["api"] == "asgi" else x.sync_app()
        if scn["api"] == "asgi":
            tr = AsyncToAsgi(app, pat, x.wire, eager=bool(scn.get("eager")), jitter=rng if "sched" in scn else None)
        else:
            tr = AsyncToWsgi(app, pat, x.wire)
        client = ConnectClient(ADDR, http_client=Client(tr), **x.spy(1, True), **x.client_conf())

        async def nap():
            if "sched" in scn:
                for _ in range(rng.randrange(6)):
                    await asyncio.sleep(0)

        inlib = {}
        alarms = {}

        async def one(i, c):
            kind = c["kind"]
            reqs = [x.T.make(v) for v in c["reqs"]]
            obj = x.hdr_obj(c)
            before = x.snap(obj)
            got = asyncio.Semaphore(0)
            over = asyncio.Event()
            hold = c.get("hold", -1)
            t0 = asyncio.get_running_loop().time()

            async def gen():
                for j, m in enumerate(reqs):
                    await nap()
                    if c.get("pingpong") and j > 0:
                        await got.acquire()
                    if j == hold:  # says no more until the call is over
                        await over.wait()
                    x.log("c_send", i, id=x.put(m))
                    yield m
                await nap()
                if c.get("pingpong") and reqs:
                    await got.acquire()
                if hold >= len(reqs):
                    await over.wait()
                x.log("c_close", i)

            def single():
                x.log("c_send", i, id=x.put(reqs[0]))
                x.log("c_close", i)
                return reqs[0]
            for _ in range(c.get("delay", 0)):
                await asyncio.sleep(0)
            kw = {"headers": obj}
            if c.get("tmo") is not None:
                kw["timeout_ms"] = c["tmo"]
            x.log("c_start", i)
            loop = asyncio.get_running_loop()
            limit = (c.get("tmo") or scn.get("tmo")) if any("pause" in d for d in scn["calls"]) else None
            if limit:
                alarms[i] = loop.call_at(t0 + max(0, limit - 1) / 1000, lambda: x.log("c_late", i, n=1))
            inlib[i] = True
            with ResponseMetadata() as rm:
                try:
                    if kind == "unary":
                        r = await client.execute_unary(request=single(), method=methods["get" if c.get("nse") else "unary"],
                                                       **({"use_get": True} if c.get("get") else {}), **kw)
                        x.log("c_ret", i, id=x.get(r))
                    elif kind == "client":
                        r = await client.execute_client_stream(request=gen(), method=methods["client"], **kw)
                        x.log("c_ret", i, id=x.get(r))
                    else:
                        s = (client.execute_server_stream(request=single(), method=methods["server"], **kw) if kind == "server"
                             else client.execute_bidi_stream(request=gen(), method=methods["bidi"], **kw))
                        n = 0
                        stop = c.get("stop", -1)
                        while True:
                            if n == stop:
                                x.log("c_stop", i)
                                await s.aclose()
                                break
                            inlib[i] = False
                            await nap()
                            for at, ms in c.get("pause", []):
                                if at == n:
                                    await asyncio.sleep(ms / 1000)
                            if limit and loop.time() > t0 + (limit + 1) / 1000:
                                x.log("c_late", i, n=2)
                            inlib[i] = True
                            try:
                                m = await s.__anext__()
                            except StopAsyncIteration:
                                x.log("c_end", i)
                                break
                            n += 1
                            x.log("c_msg", i, id=x.get(m))
                            got.release()
                except (Exception, asyncio.CancelledError) as e:
                    x.err(i, e)
                inlib[i] = False
                over.set()
                if i in alarms:
                    alarms[i].cancel()
                x.meta(i, rm, obj, before)
        tasks = [asyncio.ensure_future(one(i, c)) for i, c in enumerate(scn["calls"])]

        async def canceller(i, c):
            for _ in range(c["cancel"]):
                await asyncio.sleep(0)
            while not tasks[i].done() and not inlib.get(i):
                await asyncio.sleep(0)
            if not tasks[i].done():
                x.log("c_cancel", i)
                tasks[i].cancel()
        cs = [asyncio.ensure_future(canceller(i, c)) for i, c in enumerate(scn["calls"]) if "cancel" in c]
        await asyncio.wait(tasks + cs)
        if scn["api"] == "asgi":
            await tr.settle()
        for _ in range(5):
            await asyncio.sleep(0)
        import gc
        gc.collect(0)
        for _ in range(5):
            await asyncio.sleep(0)
        x.ev.append(dict(E("end"), c=0))
    _, err = run_virtual(main)
    if err:
        x.ev.append(dict(E("deadlock", msg=err), c=1))
    return {"cfg": cfg, "events": x.ev}


def run_sync(x):
    scn = x.scn
    cfg = x.cfg()
    methods = x.methods()
    pat = scn.get("pat")
    app = x.async_app() if scn["api"] == "asgi" else x.sync_app()
    tr = SyncToAsgi(app, pat, x.wire) if scn["api"] == "asgi" else SyncToWsgi(app, pat, x.wire)
    client = ConnectClientSync(ADDR, http_client=SyncClient(tr), **x.spy(1, False), **x.client_conf())
    multi, turns = len(scn["calls"]) > 1, "turns" in scn
    rng = random.Random(scn.get("sched", 0))
    naps = {i: [rng.randrange(4) for _ in range(40)] for i in range(len(scn["calls"]))}

    clock = [4321.0]

    def one(i, c):
        for _ in steps(i, c):
            pass

    def steps(i, c):
        kind = c["kind"]
        reqs = [x.T.make(v) for v in c["reqs"]]
        obj = x.hdr_obj(c)
        before = x.snap(obj)
        ns = iter(naps[i])

        def nap():
            if multi and not turns:
                time.sleep(0.0003 * next(ns, 0))

        def gen():
            for m in reqs:
                nap()
                x.log("c_send", i, id=x.put(m))
                yield m
            x.log("c_close", i)

        def single():
            x.log("c_send", i, id=x.put(reqs[0]))
            x.log("c_close", i)
            return reqs[0]
        nap()
        kw = {"headers": obj}
        if c.get("tmo") is not None:
            kw["timeout_ms"] = c["tmo"]
        yield
        limit = (c.get("tmo") or scn.get("tmo")) if turns else None
        t0 = clock[0]
        x.log("c_start", i)
        with ResponseMetadata() as rm:
            try:
                if kind == "unary":
                    r = client.execute_unary(request=single(), method=methods["get" if c.get("nse") else "unary"],
                                             **({"use_get": True} if c.get("get") else {}), **kw)
                    x.log("c_ret", i, id=x.get(r))
                elif kind == "client":
                    r = client.execute_client_stream(request=gen(), method=methods["client"], **kw)
                    x.log("c_ret", i, id=x.get(r))
                else:
                    s = (client.execute_server_stream(request=single(), method=methods["server"], **kw) if kind == "server"
                         else client.execute_bidi_stream(request=gen(), method=methods["bidi"], **kw))
                    n = 0
                    stop = c.get("stop", -1)
                    while True:
                        if n == stop:
                            x.log("c_stop", i)
                            s.close()
                            break
                        nap()
                        if n:
                            yield
                        if limit and clock[0] > t0 + (limit - 1) / 1000:
                            x.log("c_late", i, n=2 if clock[0] > t0 + (limit + 1) / 1000 else 1)
                        try:
                            m = next(s)
                        except StopIteration:
                            x.log("c_end", i)
                            break
                        n += 1
                        x.log("c_msg", i, id=x.get(m))
            except Exception as e:
                x.err(i, e)
            x.meta(i, rm, obj, before)
    old = time.monotonic
    time.monotonic = lambda: clock[0]
    try:
        if turns:
            # one thread takes all calls in turn, and its clock moves on
            live = [(contextvars.copy_context(), steps(i, c)) for i, c in enumerate(scn["calls"])]
            order = random.Random(scn["turns"])
            while live:
                e = order.choice(live)
                try:
                    e[0].run(next, e[1])
                except StopIteration:
                    live.remove(e)
                clock[0] += order.choice(scn.get("ticks", [0])) / 1000
        elif multi:
            ths = [threading.Thread(target=one, args=(i, c), daemon=True) for i, c in enumerate(scn["calls"])]
            for t in ths:
                t.start()
            for t in ths:
                t.join(20)
            if any(t.is_alive() for t in ths):
                x.ev.append(dict(E("deadlock", msg="a call never ends"), c=1))
        else:
            one(0, scn["calls"][0])
    finally:
        time.monotonic = old
    import gc
    gc.collect(0)
    x.ev.append(dict(E("end"), c=0))
    return {"cfg": cfg, "events": list(x.ev)}


def hung(scn):
    return {"cfg": {"multi": False, "calls": []}, "events": []}
