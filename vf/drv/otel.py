"""Calls with the OpenTelemetry interceptors on either side (Telemetry.tla)."""
import asyncio
import contextvars
import json
import logging
import time

from opentelemetry import context as otel_context
from opentelemetry import metrics as otel_metrics
from opentelemetry import trace as otel_trace
from opentelemetry.propagators.textmap import TextMapPropagator, default_getter, default_setter
from opentelemetry.sdk.metrics import Histogram, MeterProvider
from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from pyqwest import Client, SyncClient

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.server import Endpoint, EndpointSync
from connectrpc_otel import OpenTelemetryInterceptor

from ..bridge import AsyncToAsgi, AsyncToWsgi, SyncToAsgi, SyncToWsgi
from ..toys import Msg, RawCodec
from ..vloop import run_virtual
from .server import App, WApp

logging.getLogger("opentelemetry").setLevel(logging.CRITICAL)

PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
SEND_TP = "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"

# address of the client -> admissible address, port
ADDRS = {
    "port": ("http://h.example:81", ["h.example"], 81), "bare": ("http://h.example", ["h.example"], 80), "tls": ("https://h.example", ["h.example"], 443),
    "tlsport": ("https://h.example:8443", ["h.example"], 8443), "path": ("http://h.example/pre/fix", ["h.example"], 80),
    "portpath": ("http://h.example:81/pre", ["h.example"], 81), "v6": ("http://[::1]:81", ["::1", "[::1]"], 81), "v6bare": ("http://[fe80::1]", ["fe80::1", "[fe80::1]"], 80),
    "v6tls": ("https://[::1]", ["::1", "[::1]"], 443), "v4": ("http://127.0.0.1:9", ["127.0.0.1"], 9), "v4path": ("https://10.0.0.1/a", ["10.0.0.1"], 443)}
# Host header of the request -> admissible address, port with http / https; None: left open
HOSTS = {"h.example:81": (["h.example"], 81, 81), "h.example": (["h.example"], 80, 443), "[::1]:8080": (["::1", "[::1]"], 8080, 8080),
         "[::1]": (["::1", "[::1]"], 80, 443), "10.0.0.7": (["10.0.0.7"], 80, 443), "-": ([], -1, -1),
         "h:x": None, "h:": None, ":81": None, "a:b:c": None, "::1": None, "h:99999999": None, "[": None, "h:" + "9" * 4500: None, "h:-1": None, "h:\u00b2": None}
CADDR = {"v4": (("10.1.2.3", 4567), ["10.1.2.3"], 4567), "v6": (("::1", 4567), ["::1", "[::1]"], 4567), "none": (None, [], -1),
         "odd": (("unix:/run/x.sock", None), None, 0), "empty": (("", 0), None, 0)}


def E(ev, **kw):
    e = {"ev": ev, "c": 0, "side": "", "sp": 0, "par": 0, "tid": 0, "tpar": 0, "name": "", "kind": "", "sys": "", "meth": "", "sa": "", "sport": -1,
         "ca": "", "cport": -1, "et": "", "code": "", "st": "", "n": 0, "out": "", "ref": "",
         "d": 0, "hi": 0}
    e.update(kw)
    return e


KNOWN = {"rpc.system.name", "rpc.method", "server.address", "server.port", "error.type", "rpc.response.status_code"}


class Own(TextMapPropagator):
    """a propagator with a header of its own"""

    def inject(self, carrier, context=None, setter=default_setter):
        sc = otel_trace.get_current_span(context).get_span_context()
        if sc.is_valid:
            setter.set(carrier, "x-own", "%x/%x/%d" % (sc.trace_id, sc.span_id, sc.trace_flags))

    def extract(self, carrier, context=None, getter=default_getter):
        v = getter.get(carrier, "x-own")
        if not v:
            return context if context is not None else otel_context.Context()
        t, s, f = v[0].split("/")
        sc = otel_trace.SpanContext(int(t, 16), int(s, 16), True, otel_trace.TraceFlags(int(f)))
        return otel_trace.set_span_in_context(otel_trace.NonRecordingSpan(sc), context)

    @property
    def fields(self):
        return {"x-own"}


class Outer:
    class Inner(Exception):
        pass


class MyErr(ConnectError):
    pass


RAW = {"ValueError": ValueError, "KeyError": KeyError, "Outer.Inner": Outer.Inner, "OSError": OSError, "TimeoutError": TimeoutError, "LookupError": LookupError}


class Providers:
    def __init__(self, off):
        self.exp = InMemorySpanExporter()
        self.tp = TracerProvider(sampler=ALWAYS_OFF if off else ALWAYS_ON, shutdown_on_exit=False)
        self.tp.add_span_processor(SimpleSpanProcessor(self.exp))
        self.reader = InMemoryMetricReader(preferred_temporality={Histogram: AggregationTemporality.DELTA})
        self.mp = MeterProvider(metric_readers=[self.reader], shutdown_on_exit=False)

    def clear(self):
        self.exp.clear()
        self.reader.get_metrics_data()


_GLOB = []


def glob():
    """global providers, set once in a process"""
    if not _GLOB:
        p = Providers(False)
        otel_trace.set_tracer_provider(p.tp)
        otel_metrics.set_meter_provider(p.mp)
        _GLOB.append(p)
    _GLOB[0].clear()
    return _GLOB[0]


class Ids:
    def __init__(self):
        self.m, self.t = {}, {}

    def span(self, sid):
        return 0 if not sid else self.m.setdefault(sid, len(self.m) + 1)

    def trace(self, tid):
        return 0 if not tid else self.t.setdefault(tid, len(self.t) + 1)

    def cur(self):
        return self.span(otel_trace.get_current_span().get_span_context().span_id)


def on_wire(headers, own):
    if own:
        v = headers.get("x-own")
        return (int(v.split("/")[1], 16), int(v.split("/")[0], 16)) if v else (0, 0)
    v = headers.get("traceparent")
    if not v:
        return 0, 0
    p = v.split("-")
    return int(p[2], 16), int(p[1], 16)


class Run:
    """one execution of the scenario, with or without telemetry"""

    def __init__(self, scn, tele):
        self.scn, self.tele, self.ids = scn, tele, Ids()
        self.ev = []
        self.outs = {}
        off = scn.get("off", False)
        self.own = scn.get("prop") == "own"
        if tele:
            if scn.get("glob"):
                self.pc = self.ps = glob()
            else:
                self.pc, self.ps = Providers(off), Providers(off)
        else:
            self.pc = self.ps = None
        # the caller's surrounding span has id 1
        self.outer_tp = TracerProvider(shutdown_on_exit=False)
        self.outer = self.outer_tp.get_tracer("outer").start_span("outer")
        self.ids.span(self.outer.get_span_context().span_id)
        self.ids.trace(self.outer.get_span_context().trace_id)
        self.sent = self.ids.span(int(SEND_TP.split("-")[2], 16)) if any(c.get("tp") for c in scn["calls"]) else 0
        if self.sent:
            self.ids.trace(int(SEND_TP.split("-")[1], 16))

    def log(self, *a, **kw):
        if self.tele:
            self.ev.append(E(*a, **kw))

    def interceptors(self, client):
        s = self.scn
        if not self.tele or not s["cl" if client else "sv"]:
            return []
        p = self.pc if client else self.ps
        kw = {} if s.get("glob") else {"tracer_provider": p.tp, "meter_provider": p.mp}
        if self.own:
            kw["propagator"] = Own()
        elif s.get("prop") == "w3c":
            kw["propagator"] = TraceContextTextMapPropagator()
        if client:
            kw["client"] = True
        return [OpenTelemetryInterceptor(**kw)]

    # ---- server
    def method(self, i):
        c = self.scn["calls"][i]
        return MethodInfo(name="M%d" % (i + 1), service_name="svc.S", input=Msg, output=Msg,
                          idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS if c.get("get") else IdempotencyLevel.UNKNOWN)

    def note(self, i):
        self.log("handler", c=i + 1, sp=self.ids.cur())

    def busy(self, c):
        """a handler that takes its time, on the real clock and on the loop's own"""
        if c.get("busy"):
            time.sleep(c["busy"] / 1e6)
            try:
                loop = asyncio.get_running_loop()
            except RuntimeError:
                return
            loop._vt += c["busy"] / 1e6

    def fail(self, c):
        k = c["out"]
        if k == "err":
            raise ConnectError(Code(c["code"]), "no " + c["code"])
        if k == "sub":
            raise MyErr(Code(c["code"]), "my")
        if k == "raw":
            raise RAW[c["exc"]]("raw")

    def endpoints(self, sync):
        out = {}
        for i, c in enumerate(self.scn["calls"]):
            out["/svc.S/M%d" % (i + 1)] = (self.ep_sync if sync else self.ep_async)(i, c)
        return out

    def ep_async(self, i, c):
        async def naps():
            for _ in range(c.get("nap", 0)):
                await asyncio.sleep(0)

        async def fn(request, ctx):
            self.note(i)
            self.busy(c)
            await naps()
            if c["kind"] == "client":
                async for _ in request:
                    self.note(i)
            if c["out"] in ("slow", "kill"):
                await asyncio.sleep(1000)
            self.fail(c)
            self.note(i)
            return Msg(b"r")

        async def gen(request, ctx):
            self.note(i)
            self.busy(c)
            await naps()
            if c["kind"] == "bidi":
                async for _ in request:
                    self.note(i)
            for k in range(c["n"]):
                yield Msg(b"r%d" % k)
                await naps()
                self.note(i)
            if c["out"] in ("slow", "kill"):
                await asyncio.sleep(1000)
            self.fail(c)
        k = c["kind"]
        return {"unary": Endpoint.unary, "client": Endpoint.client_stream, "server": Endpoint.server_stream, "bidi": Endpoint.bidi_stream}[k](
            self.method(i), gen if k in ("server", "bidi") else fn)

    def ep_sync(self, i, c):
        def fn(request, ctx):
            self.note(i)
            self.busy(c)
            if c["kind"] == "client":
                for _ in request:
                    self.note(i)
            self.fail(c)
            self.note(i)
            return Msg(b"r")

        def gen(request, ctx):
            self.note(i)
            self.busy(c)
            if c["kind"] == "bidi":
                for _ in request:
                    self.note(i)
            for k in range(c["n"]):
                yield Msg(b"r%d" % k)
                self.note(i)
            self.fail(c)
        k = c["kind"]
        return {"unary": EndpointSync.unary, "client": EndpointSync.client_stream, "server": EndpointSync.server_stream, "bidi": EndpointSync.bidi_stream}[k](
            method=self.method(i), function=gen if k in ("server", "bidi") else fn)

    def app(self):
        s = self.scn
        path = ADDRS[s["addr"]][0].split("://")[1].partition("/")[1:]
        root = "".join(path)
        host, ca = s["host"], CADDR[s["caddr"]][0]
        if s["api"] == "asgi":
            app = App(service=object(), endpoints=lambda _: self.endpoints(False), codecs=[RawCodec()], interceptors=self.interceptors(False))

            async def asgi(scope, receive, send):
                scope = dict(scope)
                scope["root_path"] = root
                hs = [(k, v) for k, v in scope["headers"] if k != b"host"]
                if host != "-":
                    hs.append((b"host", host.encode()))
                scope["headers"], scope["client"] = hs, ca
                cv = contextvars.copy_context() if s["samep"] else contextvars.Context()
                t = asyncio.get_running_loop().create_task(app(scope, receive, send), context=cv)
                i = int(scope["path"].rsplit("/M", 1)[1]) - 1
                if s["calls"][i]["out"] == "kill":
                    asyncio.get_running_loop().call_later(.03, t.cancel)
                try:
                    await asyncio.shield(t)
                except asyncio.CancelledError:
                    t.cancel()
                    await asyncio.wait({t})
                    raise
            return asgi
        app = WApp(endpoints=self.endpoints(True), codecs=[RawCodec()], interceptors=self.interceptors(False))

        def wsgi(environ, start):
            environ = dict(environ)
            environ["SCRIPT_NAME"] = root
            if root and environ["PATH_INFO"].startswith(root):
                environ["PATH_INFO"] = environ["PATH_INFO"][len(root):]
            environ.pop("HTTP_HOST", None)
            environ.pop("REMOTE_ADDR", None)
            environ.pop("REMOTE_PORT", None)
            if host != "-":
                environ["HTTP_HOST"] = host
            if ca:
                environ["REMOTE_ADDR"] = ca[0]
                if ca[1] is not None:
                    environ["REMOTE_PORT"] = str(ca[1])
            cv = contextvars.copy_context() if s["samep"] else contextvars.Context()
            res = cv.run(app, environ, start)
            it = cv.run(iter, res)

            def body():
                try:
                    while True:
                        try:
                            x = cv.run(next, it)
                        except StopIteration:
                            return
                        yield x
                finally:
                    if hasattr(res, "close"):
                        cv.run(res.close)
            return body()
        return wsgi

    # ---- client
    def head(self, c):
        h = {"x-k": "v"}
        if c.get("tp"):
            h["traceparent"] = SEND_TP
        return h

    def wire(self, request):
        i = int(request.url.split("?")[0].rsplit("/M", 1)[1])
        sp, tid = on_wire(request.headers, self.own and self.scn["cl"] and self.tele)
        self.log("wire", c=i, sp=self.ids.span(sp), tid=self.ids.trace(tid), par=self.ids.cur())
        return i - 1

    def begin(self, i):
        self.log("begin", c=i + 1, par=self.ids.cur())

    def done(self, i, msgs, e):
        if e is None:
            o = ["ok", msgs]
        elif isinstance(e, ConnectError):
            o = [e.code.value, e.message, msgs]
        else:
            o = ["raw", type(e).__name__, msgs]
        n = len([s for s in self.pc.exp.get_finished_spans() if s.kind == otel_trace.SpanKind.CLIENT and s.name == "svc.S/M%d" % (i + 1)]) if self.tele else 0
        self.outs[i] = json.dumps(o)
        self.log("done", c=i + 1, sp=self.ids.cur(), out=self.outs[i], n=n)

    def conf(self, http_client):
        return dict(codec=RawCodec(), protocol=PT[self.scn["proto"]], accept_compression=[], send_compression=None, http_client=http_client,
                    interceptors=self.interceptors(True))

    def surround(self, c):
        """the caller's span around the call"""
        if not c.get("parent"):
            return contextvars.copy_context()
        cv = contextvars.copy_context()
        span = otel_trace.NonRecordingSpan(self.outer.get_span_context()) if c["parent"] == "nr" else self.outer
        cv.run(otel_context.attach, otel_trace.set_span_in_context(span))
        return cv

    def run_async(self):
        s = self.scn

        async def main():
            tr = AsyncToAsgi(self.app()) if s["api"] == "asgi" else AsyncToWsgi(self.app())

            class T:
                async def execute(_, request):
                    i = self.wire(request)
                    if s["calls"][i]["out"] == "net":
                        if not isinstance(request.content, (bytes, bytearray)):
                            async for _x in request.content:
                                pass
                        raise ConnectionError("refused")
                    return await tr.execute(request)
            client = ConnectClient(ADDRS[s["addr"]][0], **self.conf(Client(T())))

            async def reqs(c):
                for k in range(c["q"]):
                    await asyncio.sleep(0)
                    yield Msg(b"q%d" % k)

            async def call(i):
                c = s["calls"][i]
                for _ in range(c.get("delay", 0)):
                    await asyncio.sleep(0)
                self.begin(i)
                msgs, kw, k = [], dict(method=self.method(i), headers=self.head(c)), c["kind"]
                if c["out"] in ("slow", "kill") and not c.get("cancel"):
                    kw["timeout_ms"] = 50
                try:
                    if k == "unary":
                        r = await client.execute_unary(request=Msg(b"q"), **kw, **({"use_get": True} if c.get("get") else {}))
                        msgs.append(r.data.decode())
                    elif k == "client":
                        r = await client.execute_client_stream(request=reqs(c), **kw)
                        msgs.append(r.data.decode())
                    else:
                        st = (client.execute_server_stream(request=Msg(b"q"), **kw) if k == "server"
                              else client.execute_bidi_stream(request=reqs(c), **kw))
                        try:
                            async for m in st:
                                msgs.append(m.data.decode())
                                if c.get("early") == len(msgs):
                                    break
                                for _ in range(c.get("delay", 0)):
                                    await asyncio.sleep(0)
                        finally:
                            await st.aclose()
                    self.done(i, msgs, None)
                except Exception as e:
                    self.done(i, msgs, e)
                except asyncio.CancelledError as e:
                    self.done(i, msgs, e)
            loop = asyncio.get_running_loop()
            ts = []

            def go(i):
                c = s["calls"][i]
                t = loop.create_task(call(i), context=self.surround(c))
                if c.get("cancel"):
                    loop.call_later(.02, t.cancel)
                return t
            if s.get("odd"):
                await self.odd(client, reqs)
            elif s.get("conc"):
                ts = [go(i) for i in range(len(s["calls"]))]
                await asyncio.wait(ts)
            else:
                for i in range(len(s["calls"])):
                    await asyncio.wait({go(i)})
            if s["api"] == "asgi":
                await tr.settle()
        v = [0.0, 0.0]

        async def timed():
            loop = asyncio.get_running_loop()
            v[0] = loop.time()
            try:
                await main()
            finally:
                v[1] = loop.time()
        _, err = run_virtual(timed)
        if err:
            self.log("deadlock", out=err)
        return v[1] - v[0]

    async def odd(self, client, reqs):
        """two response streams taken in turn by one task; a stream left without closing it"""
        cs = self.scn["calls"]
        if self.scn["odd"] == "turns":
            sts = []
            for i in range(2):
                self.begin(i) if i == 0 else self.log("begin", c=2, par=0)
                sts.append(client.execute_server_stream(request=Msg(b"q"), method=self.method(i), headers=self.head(cs[i])))
            out = [[], []]
            live = [0, 1]
            while live:
                for i in list(live):
                    try:
                        out[i].append((await sts[i].__anext__()).data.decode())
                    except StopAsyncIteration:
                        live.remove(i)
                        self.log("mid", c=i + 1)
            self.ev = [e for e in self.ev if e["ev"] != "mid"]
            for i in range(2):
                self.done(i, out[i], None)
        else:
            self.begin(0)
            got = []
            async for m in client.execute_server_stream(request=Msg(b"q"), method=self.method(0), headers=self.head(cs[0])):
                got.append(m.data.decode())
                break
            for _ in range(50):
                await asyncio.sleep(0)
            self.done(0, got, None)

    def run_sync(self):
        s = self.scn
        tr = SyncToAsgi(self.app()) if s["api"] == "asgi" else SyncToWsgi(self.app())

        class T:
            def execute_sync(_, request):
                i = self.wire(request)
                if s["calls"][i]["out"] == "net":
                    if not isinstance(request.content, (bytes, bytearray)):
                        list(request.content)
                    raise ConnectionError("refused")
                return tr.execute_sync(request)
        client = ConnectClientSync(ADDRS[s["addr"]][0], **self.conf(SyncClient(T())))

        def reqs(c):
            for k in range(c["q"]):
                yield Msg(b"q%d" % k)

        def call(i):
            c = s["calls"][i]
            self.begin(i)
            msgs, kw, k = [], dict(method=self.method(i), headers=self.head(c)), c["kind"]
            try:
                if k == "unary":
                    msgs.append(client.execute_unary(request=Msg(b"q"), **kw, **({"use_get": True} if c.get("get") else {})).data.decode())
                elif k == "client":
                    msgs.append(client.execute_client_stream(request=reqs(c), **kw).data.decode())
                else:
                    st = (client.execute_server_stream(request=Msg(b"q"), **kw) if k == "server" else client.execute_bidi_stream(request=reqs(c), **kw))
                    try:
                        for m in st:
                            msgs.append(m.data.decode())
                            if c.get("early") == len(msgs):
                                break
                    finally:
                        st.close()
                self.done(i, msgs, None)
            except Exception as e:
                self.done(i, msgs, e)
        for i, c in enumerate(s["calls"]):
            self.surround(c).run(call, i)

    def collect(self):
        ids = self.ids

        def attrs(a):
            f = dict(sys=str(a.get("rpc.system.name", "")), meth=str(a.get("rpc.method", "")), sa=str(a.get("server.address", "")),
                     et=str(a.get("error.type", "")), code=str(a.get("rpc.response.status_code", "")))
            sp = a.get("server.port", -1)
            f["sport"] = sp if isinstance(sp, int) and sp < 10 ** 9 else -2
            return f

        def which(m):
            p = "svc.S/M"
            n = m[len(p):] if m.startswith(p) else ""
            return int(n) if n.isdigit() and 1 <= int(n) <= len(self.scn["calls"]) else 0
        for side, p in (("c", self.pc), ("s", self.ps)):
            if p is self.pc and p is self.ps and side == "s":
                break
            for s in p.exp.get_finished_spans():
                sd = {"CLIENT": "c", "SERVER": "s"}.get(s.kind.name, side) if self.pc is self.ps else side
                f = attrs(s.attributes)
                cp = s.attributes.get("client.port", -1)
                self.log("span", c=which(s.name), side=sd, sp=ids.span(s.context.span_id), tid=ids.trace(s.context.trace_id),
                         par=ids.span(s.parent.span_id) if s.parent else 0, name=s.name, kind=s.kind.name,
                         ca=str(s.attributes.get("client.address", "")), cport=cp if isinstance(cp, int) and cp < 10 ** 9 else -2,
                         st="ERROR" if s.status.status_code.name == "ERROR" else "", n=1 if s.end_time else 0, **f)
            d = p.reader.get_metrics_data()
            for rm in d.resource_metrics if d else []:
                for sm in rm.scope_metrics:
                    for m in sm.metrics:
                        sd = {"rpc.client.call.duration": "c", "rpc.server.call.duration": "s"}.get(m.name, side) if self.pc is self.ps else side
                        for pt in m.data.data_points:
                            f = attrs(pt.attributes)
                            d = max(-1, min(2 * 10 ** 9, int(pt.sum * 1e6)))
                            self.log("rec", c=which(f["meth"]), side=sd, name=m.name, n=pt.count, d=d, hi=self.took, st=m.unit, ca=str(pt.attributes.get("client.address", "")),
                                     kind="".join(sorted(set(pt.attributes) - KNOWN)), **f)


def cfg(scn, sent):
    a = ADDRS[scn["addr"]]
    h = HOSTS[scn["host"]]
    tls = a[0].startswith("https")
    ca = CADDR[scn["caddr"]]
    calls = []
    for i, c in enumerate(scn["calls"]):
        o = c["out"]
        cet = ccode = et = code = ""
        reach = "y"
        if o in ("err", "sub"):
            cet, ccode, et, code = "ConnectError", c["code"], "MyErr" if o == "sub" else "ConnectError", c["code"]
        elif o == "raw":
            cet, ccode, et, code = "ConnectError", "unknown", c["exc"], "unknown"
        elif o == "net":
            cet, ccode, reach = "ConnectError", "unavailable", "*"
        elif o == "slow":
            cet, ccode, et, code = "ConnectError", "canceled" if c.get("cancel") else "deadline_exceeded", "*", "*"
        elif o == "kill":
            cet, ccode, et, code = "*", "*", "ConnectError", "canceled"
        if c.get("early"):
            et = code = "*"
            reach = "*"
            if c["early"] <= c["n"]:
                cet = ccode = ""
        if c.get("cancel"):
            reach = "*"
        calls.append({"name": "svc.S/M%d" % (i + 1), "cl": scn["cl"], "sv": scn["sv"], "reach": reach, "samep": scn["samep"], "tp": sent if c.get("tp") else 0,
                      "off": scn.get("off", False), "csa": a[1], "csp": a[2], "ssa": h[0] if h else [], "ssp": (h[2] if tls else h[1]) if h else -1,
                      "sfree": h is None, "ca": ca[1] or [], "cap": ca[2], "cafree": ca[1] is None, "cet": cet, "ccode": ccode, "set": et, "scode": code,
                      "busy": c.get("busy", 0) if scn["flav"] == "sync" or scn["api"] == "asgi" else 0})
    return {"calls": calls}


def run(scn):
    base = Run(scn, False)
    base.run_async() if scn["flav"] == "async" else base.run_sync()
    r = Run(scn, True)
    t0 = time.perf_counter()
    virtual = (r.run_async() or 0) if scn["flav"] == "async" else (r.run_sync() or 0)
    r.took = min(2 * 10 ** 9, int((time.perf_counter() - t0 + virtual) * 1e6))
    r.collect()
    for e in r.ev:
        if e["ev"] == "done":
            e["ref"] = base.outs.get(e["c"] - 1, "none")
    return {"cfg": cfg(scn, r.sent), "events": r.ev}
