"""Histories of instrumenting, importing and creating, each in a process of its own (Instrument.tla)."""
import asyncio
import io
import json
import logging
import os
import sys
import traceback

from opentelemetry import metrics as otel_metrics
from opentelemetry import trace as otel_trace
from opentelemetry.sdk.metrics import Histogram, MeterProvider
from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from pyqwest import Client, Headers, Response, SyncClient, SyncResponse

from connectrpc_otel import ConnectInstrumentor, OpenTelemetryInterceptor

logging.getLogger("opentelemetry").setLevel(logging.CRITICAL)


def E(ev, **kw):
    e = {"ev": ev, "o": 0, "k": "", "p": "", "m": "", "ints": [], "spans": [], "recs": [], "order": [], "cur": [], "kind": "", "out": "ok"}
    e.update(kw)
    return e


class Prov:
    def __init__(self):
        self.exp = InMemorySpanExporter()
        self.tp = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False)
        self.tp.add_span_processor(SimpleSpanProcessor(self.exp))
        self.reader = InMemoryMetricReader(preferred_temporality={Histogram: AggregationTemporality.DELTA})
        self.mp = MeterProvider(metric_readers=[self.reader], shutdown_on_exit=False)

    def count(self):
        d = self.reader.get_metrics_data()
        return sum(pt.count for rm in (d.resource_metrics if d else []) for sm in rm.scope_metrics for m in sm.metrics for pt in m.data.data_points)


class MyOwn(OpenTelemetryInterceptor):
    pass


class Hist:
    def __init__(self, scn):
        self.scn, self.ev, self.objs = scn, [], []
        self.prov = {k: Prov() for k in ("A", "B", "G", "own")}
        otel_trace.set_tracer_provider(self.prov["G"].tp)
        otel_metrics.set_meter_provider(self.prov["G"].mp)
        self.inst = ConnectInstrumentor()
        self.seen = []

    def log(self, *a, **kw):
        self.ev.append(E(*a, **kw))

    def rec(self, name):
        h = self

        class Meta:
            async def on_start(self, ctx):
                return self.on_start_sync(ctx)

            def on_start_sync(self, ctx):
                h.seen.append((name, otel_trace.get_current_span().get_span_context().is_valid))

            async def on_end(self, token, ctx, error):
                pass

            def on_end_sync(self, token, ctx, error):
                pass

        class Full:
            async def intercept_unary(self, call_next, request, ctx):
                h.seen.append((name, otel_trace.get_current_span().get_span_context().is_valid))
                return await call_next(request, ctx)

            def intercept_unary_sync(self, call_next, request, ctx):
                h.seen.append((name, otel_trace.get_current_span().get_span_context().is_valid))
                return call_next(request, ctx)
        return Meta() if name == "a" else Full()

    def guard(self, f):
        try:
            f()
            return "ok"
        except Exception as e:
            return type(e).__name__ + ": " + str(e)

    def load(self, m):
        return self.guard(lambda: __import__("connectrpc." + m))

    def create(self, op):
        k = op["k"]
        mod = "client" if k in ("client", "syncclient") else "server"
        if "connectrpc." + mod not in sys.modules:
            self.log("import", k=mod, out=self.load(mod))
        m = sys.modules["connectrpc." + mod]
        base = getattr(m, {"client": "ConnectClient", "syncclient": "ConnectClientSync", "asgi": "ConnectASGIApplication", "wsgi": "ConnectWSGIApplication"}[k])
        cls = base
        sub = op["sub"]
        if mod == "server" or sub:
            ns = {"path": property(lambda self: "/svc.S")} if mod == "server" else {}
            if sub == "own":
                if mod == "client":
                    def init(self, address, *, interceptors=(), **kw):
                        base.__init__(self, address, interceptors=interceptors, **kw)
                else:
                    def init(self, *, interceptors=(), **kw):
                        base.__init__(self, interceptors=interceptors, **kw)
                ns["__init__"] = init
            cls = type("Sub", (base,), ns)
        own = MyOwn if op["ownsub"] else OpenTelemetryInterceptor
        o = self.prov["own"]
        ints = [own(tracer_provider=o.tp, meter_provider=o.mp, client=mod == "client") if n == "own" else self.rec(n) for n in op["ints"]]
        arg = {"list": lambda: list(ints), "tuple": lambda: tuple(ints), "gen": lambda: (x for x in ints), "iter": lambda: iter(list(ints)),
               "set1": lambda: {x: 1 for x in ints}.keys(), "absent": lambda: None}[op["form"]]()
        kw = {} if op["form"] == "absent" else {"interceptors": arg}
        got = []

        def make():
            from ..toys import RawCodec
            if k == "client":
                got.append(cls("http://h.example", codec=RawCodec(), accept_compression=[], send_compression=None, http_client=Client(ATransport()), **kw))
            elif k == "syncclient":
                got.append(cls("http://h.example", codec=RawCodec(), accept_compression=[], send_compression=None, http_client=SyncClient(STransport()), **kw))
            elif k == "asgi":
                got.append(cls(service=object(), endpoints=lambda _: {"/svc.S/M": m.Endpoint.unary(method(), ahandler)}, codecs=[RawCodec()], **kw))
            else:
                got.append(cls(endpoints={"/svc.S/M": m.EndpointSync.unary(method=method(), function=shandler)}, codecs=[RawCodec()], **kw))
        out = self.guard(make)
        self.log("create", k=k, ints=op["ints"], out=out)
        self.objs.append((k, got[0] if got else None))
        if op["form"] == "list" and arg != ints:
            self.log("argument")

    def probe(self, i):
        k, obj = self.objs[i]
        self.seen = []
        for p in self.prov.values():
            p.exp.clear()
            p.count()
        out = self.guard(lambda: PROBE[k](obj)) if obj is not None else "no object"
        spans, recs, kinds = [], [], set()
        for n, p in self.prov.items():
            for s in p.exp.get_finished_spans():
                spans.append(n)
                kinds.add(s.kind.name)
            recs += [n] * p.count()
        self.log("probe", o=i + 1, spans=spans, recs=recs, order=[n for n, _ in self.seen], cur=[c for _, c in self.seen], kind="+".join(sorted(kinds)), out=out)

    def run(self):
        for op in self.scn["ops"]:
            inst = ConnectInstrumentor() if self.scn["new"] else self.inst
            if op["op"] == "instrument":
                kw = {}
                if op["p"] != "G":
                    kw["tracer_provider"] = self.prov[op["p"]].tp
                if op["m"] != "G":
                    kw["meter_provider"] = self.prov[op["m"]].mp
                self.log("instrument", p=op["p"], m=op["m"], out=self.guard(lambda: inst.instrument(**kw)))
            elif op["op"] == "uninstrument":
                self.log("uninstrument", out=self.guard(inst.uninstrument))
            elif op["op"] == "import":
                self.log("import", k=op["m"], out=self.load(op["m"]))
            elif op["op"] == "create":
                self.create(op)
            elif self.objs:
                self.probe(op["o"] % len(self.objs))
        for i in range(len(self.objs)):
            self.probe(i)


def method():
    from connectrpc.method import IdempotencyLevel, MethodInfo

    from ..toys import Msg
    return MethodInfo(name="M", service_name="svc.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.UNKNOWN)


async def ahandler(request, ctx):
    return request


def shandler(request, ctx):
    return request


class ATransport:
    async def execute(self, request):
        return Response(status=200, headers=Headers({"content-type": "application/raw"}), content=b"r")


class STransport:
    def execute_sync(self, request):
        return SyncResponse(status=200, headers=Headers({"content-type": "application/raw"}), content=b"r")


def need(ok, what):
    if not ok:
        raise RuntimeError(what)


def p_client(obj):
    from ..toys import Msg
    r = asyncio.run(obj.execute_unary(request=Msg(b"q"), method=method()))
    need(r.data == b"r", "response")


def p_sync(obj):
    from ..toys import Msg
    need(obj.execute_unary(request=Msg(b"q"), method=method()).data == b"r", "response")


def p_asgi(app):
    sent = []

    async def receive():
        return {"type": "http.request", "body": b"q", "more_body": False}

    async def send(m):
        sent.append(m)
    scope = {"type": "http", "method": "POST", "path": "/svc.S/M", "root_path": "", "query_string": b"", "scheme": "http", "http_version": "1.1",
             "headers": [(b"content-type", b"application/raw"), (b"host", b"h.example")], "client": ("10.0.0.1", 5), "server": ("h.example", 80), "extensions": {}}
    asyncio.run(app(scope, receive, send))
    need(sent[0]["status"] == 200 and b"".join(m.get("body", b"") for m in sent[1:]) == b"q", "response %r" % sent)


def p_wsgi(app):
    st = []
    env = {"REQUEST_METHOD": "POST", "PATH_INFO": "/svc.S/M", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/raw", "CONTENT_LENGTH": "1",
           "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(b"q"), "HTTP_HOST": "h.example", "wsgi.errors": io.StringIO(),
           "REMOTE_ADDR": "10.0.0.1", "REMOTE_PORT": "5"}
    body = b"".join(app(env, lambda s, h, *a: st.append(s)))
    need(st[0].startswith("200") and body == b"q", "response %r %r" % (st, body))


PROBE = {"client": p_client, "syncclient": p_sync, "asgi": p_asgi, "wsgi": p_wsgi}


def run(scn):
    for m in ("connectrpc.client", "connectrpc.server"):
        if m in sys.modules:
            raise RuntimeError("already imported: " + m)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            h = Hist(scn)
            try:
                h.run()
                res = {"cfg": {"x": 0}, "events": h.ev}
            except BaseException:
                res = {"cfg": {"x": 0}, "events": h.ev, "broken": traceback.format_exc()}
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    return json.loads(data)
