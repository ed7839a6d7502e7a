"""The real codecs inside real calls; the other end passes bytes through untouched (Codec.tla)."""
import asyncio

from pyqwest import Client, SyncClient

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_codecs, google_protobuf_json_codec
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.server import Endpoint, EndpointSync

from .. import pbref, zref
from ..bridge import AsyncToAsgi, SyncToWsgi
from ..toys import Intern
from ..vloop import run_virtual
from .server import App, WApp

PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
REAL = {"proto": proto_binary_codec(), "json": proto_json_codec(), "rjson": proto_json_codec(pbref.FULL), "gproto": google_protobuf_binary_codec(),
        "gjson": google_protobuf_json_codec()}
ODD = {"str": "no message", "int": 7, "list": [1], "bytes": b"\x0a\x01a"}


COMP = {"gzip": GzipCompression, "br": BrotliCompression, "zstd": ZstdCompression}


class PassComp:
    """a compression of the other end: payloads come compressed already, and are undone by the reference"""

    def __init__(self, name, payloads):
        self._name, self._packed = name, payloads

    def name(self):
        return self._name

    def compress(self, data):
        return bytes(data) if bytes(data) in self._packed else zref.pack(self._name, data)

    def decompress(self, data):
        b = zref.undo(self._name, data)
        return b"\xff no payload" if b is None else b


class Blob:
    def __init__(self, data=b""):
        self.data = bytes(data)


class Pass:
    """a codec of the other end: bytes as they come"""

    def __init__(self, name):
        self._name = name

    def name(self):
        return self._name

    def encode(self, m):
        return m.data

    def decode(self, data, cls):
        return Blob(data)


def E(ev, **kw):
    e = {"ev": ev, "id": 0, "ok": True, "code": ""}
    e.update(kw)
    return e


def run(scn):
    codec, t = scn["codec"], scn["type"]
    lib, fmt, _ = pbref.split(codec)
    srv = scn["side"] == "server"
    comp = scn.get("comp")
    ev, it = [], Intern()
    log = lambda *a, **k: ev.append(E(*a, **k))
    name = "json" if fmt == "json" else "proto"
    cls = (pbref.P if lib == "p" else pbref.G)[t]
    num = lambda c: it.put(c)

    # a client's unary response is undone by the HTTP library, not by the code under test
    bare = not srv and scn["kind"] == "unary" and scn["proto"] == "connect"

    def decoding(p):
        """bytes for the codec under test -> (what is handed over, id, ok)"""
        z = b = bytes.fromhex(p["hex"])
        if comp and not bare:
            b = zref.undo(comp, z)
            if b is None:
                return Blob(z), 0, False
        c, _ = pbref.decode(codec, t, b)
        return Blob(z), (0 if c is None else num(c)), c is not None

    def encoding(p):
        if "odd" in p:
            return ODD[p["odd"]], 0, False
        m = cls.FromString(bytes.fromhex(p["bin"])) if lib == "g" else cls.from_binary(bytes.fromhex(p["bin"]))
        c, _ = pbref.encode(codec, t, m)
        return m, (0 if c is None else num(c)), c is not None

    def seen(m):
        """a message the codec under test decoded"""
        c = pbref.attempt(lambda: pbref.canon(t, m)) if type(m) is cls else None
        return -8 if c is None else it.get(c)

    def read(m):
        """bytes the codec under test encoded; JSON travels in UTF-8"""
        if fmt == "json" and pbref.attempt(lambda: m.data.decode("utf-8")) is None:
            return -9
        c = pbref.other(codec, t, m.data)
        return -9 if c is None else it.get(c)
    reqs = [(decoding if srv else encoding)(p) for p in scn["req"]]
    ress = [(encoding if srv else decoding)(p) for p in scn["res"]]
    h_id, c_id = (seen, read) if srv else (read, seen)
    mine = {"proto": [REAL["proto"]], "json": [REAL["json"]], "rjson": [REAL["rjson"]], "gproto": [REAL["gproto"]], "gjson": [REAL["gjson"]]}[codec]
    if scn["more"]:
        mine = {"proto": None, "json": None, "rjson": [REAL["proto"], REAL["rjson"]], "gproto": google_protobuf_codecs(), "gjson": google_protobuf_codecs()}[codec]
    scodecs = mine if srv else [Pass(name)]
    ccodec = Pass(name) if srv else None if codec == "proto" and scn["more"] else REAL[codec]
    mk = lambda c: MethodInfo(name="M", service_name="svc.S", input=c, output=c, idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS)
    smi, cmi = (mk(cls), mk(Blob)) if srv else (mk(Blob), mk(cls))
    kind = scn["kind"]
    single_req, single_res = kind in ("unary", "server"), kind in ("unary", "client")
    alt = scn["alt"]

    def out(i):
        m, n, ok = ress[i]
        log("h_ret" if single_res else "h_yield", id=n, ok=ok)
        return m

    def give():
        """requests, as the client hands them over"""
        for m, n, ok in reqs:
            log("c_send", id=n, ok=ok)
            yield m
        log("c_close")

    def one():
        return list(give())[0]
    kw = {"codec": ccodec, "protocol": PT[scn["proto"]], "send_compression": GzipCompression() if scn["send"] else None}
    skw = {"codecs": scodecs}
    if comp:
        real, other = COMP[comp](*scn["level"]), PassComp(comp, {bytes.fromhex(p["hex"]) for p in scn["req"] + scn["res"] if "hex" in p})
        kw["send_compression"] = other if srv else real
        kw["accept_compression"] = [] if scn["proto"] == "connect" and kind == "unary" else [kw["send_compression"]]
        skw["compressions"] = [real if srv else other]
    get = {"use_get": True} if scn.get("get") else {}

    def failed(e):
        log("c_err", code=e.code.value if isinstance(e, ConnectError) else "raw")

    if scn["flav"] == "async":
        async def reads(r):
            """-> number read, then logs how it ended"""
            async for m in r:
                log("h_msg", id=h_id(m))
                yield
            log("h_eof")

        async def body(r):
            """the handler: what it reads, and a None for every response it would give"""
            if single_req:
                log("h_msg", id=h_id(r))
            else:
                try:
                    async for _ in reads(r):
                        if alt:
                            yield
                except GeneratorExit:
                    raise
                except BaseException:
                    log("h_rerr")
                    raise
            while True:
                yield

        async def gen(r, x):
            log("h_start")
            i = 0
            try:
                b = body(r)
                try:
                    async for _ in b:
                        if i < len(ress):
                            i += 1
                            yield out(i - 1)
                        elif not alt or any(e["ev"] == "h_eof" for e in ev):
                            break
                finally:
                    await b.aclose()
                log("h_done")
            finally:
                log("h_exit")

        async def fn(r, x):
            log("h_start")
            try:
                b = body(r)
                try:
                    async for _ in b:
                        return out(0)
                finally:
                    await b.aclose()
            finally:
                log("h_exit")
        ep = {"unary": lambda: Endpoint.unary(smi, fn), "client": lambda: Endpoint.client_stream(smi, fn), "server": lambda: Endpoint.server_stream(smi, gen),
              "bidi": lambda: Endpoint.bidi_stream(smi, gen)}[kind]()
        app = App(service=object(), endpoints=lambda s: {"/svc.S/M": ep}, **skw)

        async def agive():
            for m in give():
                await asyncio.sleep(0)
                yield m

        async def main():
            tr = AsyncToAsgi(app, scn["pat"])
            cl = ConnectClient("http://h", http_client=Client(tr), **kw)
            try:
                if kind == "unary":
                    log("c_ret", id=c_id(await cl.execute_unary(request=one(), method=cmi, **get)))
                elif kind == "client":
                    log("c_ret", id=c_id(await cl.execute_client_stream(request=agive(), method=cmi)))
                else:
                    s = cl.execute_server_stream(request=one(), method=cmi) if kind == "server" else cl.execute_bidi_stream(request=agive(), method=cmi)
                    async for m in s:
                        log("c_msg", id=c_id(m))
                    log("c_end")
            except Exception as e:
                failed(e)
            await tr.settle()
            for _ in range(5):
                await asyncio.sleep(0)
        _, err = run_virtual(main)
        if err:
            log("deadlock")
    else:
        def inputs(r):
            if single_req:
                log("h_msg", id=h_id(r))
                return
            try:
                for m in r:
                    log("h_msg", id=h_id(m))
            except BaseException:
                log("h_rerr")
                raise
            log("h_eof")

        def sgen(r, x):
            log("h_start")
            try:
                inputs(r)
                for i in range(len(ress)):
                    yield out(i)
                log("h_done")
            finally:
                log("h_exit")

        def sfn(r, x):
            log("h_start")
            try:
                inputs(r)
                return out(0)
            finally:
                log("h_exit")
        ep = {"unary": EndpointSync.unary, "client": EndpointSync.client_stream, "server": EndpointSync.server_stream,
              "bidi": EndpointSync.bidi_stream}[kind](method=smi, function=sfn if single_res else sgen)
        app = WApp(endpoints={"/svc.S/M": ep}, **skw)
        cl = ConnectClientSync("http://h", http_client=SyncClient(SyncToWsgi(app, scn["pat"])), **kw)
        try:
            if kind == "unary":
                log("c_ret", id=c_id(cl.execute_unary(request=one(), method=cmi, **get)))
            elif kind == "client":
                log("c_ret", id=c_id(cl.execute_client_stream(request=give(), method=cmi)))
            else:
                s = cl.execute_server_stream(request=one(), method=cmi) if kind == "server" else cl.execute_bidi_stream(request=give(), method=cmi)
                for m in s:
                    log("c_msg", id=c_id(m))
                log("c_end")
        except Exception as e:
            failed(e)
    return {"cfg": {"single_req": single_req, "single_res": single_res, "comp": bool(comp)}, "events": ev}


def hung(scn):
    return {"cfg": {"single_req": False, "single_res": False, "comp": False}, "events": []}
