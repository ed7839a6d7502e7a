"""Errors written by the real servers and read by the real clients, byte by byte (ErrorWire.tla)."""
import asyncio
import base64
import io
import json

from protobuf.wkt import Any as PbAny
from protobuf.wkt import Duration, StringValue
from pyqwest import Client, Headers, Response, SyncClient, SyncResponse

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.errors import ConnectError, ErrorDetail
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.server import Endpoint, EndpointSync

from ..toys import Msg, RawCodec, ToyComp
from ..vloop import run_virtual
from ..wire import ACC_H, CODES, CTYPE, ENC_H, env
from .client import status_bin
from .server import App, WApp

PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
TOY = ToyComp("toy")
PATH = "/svc.S/M"
URL = "type.googleapis.com/"
MI = MethodInfo(name="M", service_name="svc.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.UNKNOWN)


def B(s):
    return list(s.encode("utf-8", "surrogatepass")) if isinstance(s, str) else list(s)


def E(ev, **kw):
    e = {"ev": ev, "proto": "", "code": "", "msg": [], "det": [], "sur": False, "status": 0, "ctype": "", "cenc": "", "keys": [],
         "jcode": "", "jhas": False, "jmsg": [], "jdet": [], "gst": [], "gmsg": [], "gdet": [], "rcode": "", "rmsg": [], "rdet": []}
    e.update(kw)
    return e


# ------------------------------------------------------------ writing

def make_error(scn):
    raw = scn.get("raw")
    if raw:
        return {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "RuntimeError": RuntimeError}[raw](scn["msg"])
    ds = []
    for t, v, k in scn["det"]:
        if k == "str":
            ds.append(StringValue(value=v))
        elif k == "dur":
            ds.append(Duration(seconds=v))
        else:
            a = PbAny(type_url=URL + t, value=bytes(v))
            ds.append(ErrorDetail(a) if k == "ed" else a)
    return ConnectError(Code(CODES[scn["code"]]), scn["msg"], details=ds)


def raised(scn, exc):
    det = []
    for t, v, k in scn["det"]:
        b = StringValue(value=v).to_binary() if k == "str" else Duration(seconds=v).to_binary() if k == "dur" else bytes(v)
        det.append([B(URL + t), list(b)])
    text = str(exc) if scn.get("raw") else scn["msg"]
    return {"code": CODES[scn["code"]], "msg": B(text), "det": det, "sur": any(0xD800 <= ord(c) < 0xE000 for c in text)}


def req_headers(scn):
    proto = scn["proto"]
    hs = [("content-type", "application/raw" if scn["plain"] else CTYPE[proto] + "raw")]
    if scn.get("accept"):
        hs.append(("accept-encoding" if scn["plain"] else ACC_H[proto], "toy"))
    return hs


def run_asgi(scn):
    exc = make_error(scn)

    async def fn(request, ctx):
        raise exc

    async def gen(request, ctx):
        for i in range(scn["after"]):
            yield Msg(b"m%d" % i)
        raise exc
    ep = {"unary": Endpoint.unary, "client": Endpoint.client_stream, "server": Endpoint.server_stream, "bidi": Endpoint.bidi_stream}[scn["kind"]](
        MI, gen if scn["kind"] in ("server", "bidi") else fn)
    app = App(service=object(), endpoints=lambda s: {PATH: ep}, codecs=[RawCodec()], compressions=[TOY])
    out = {"status": 0, "h": [], "b": b"", "t": []}
    body = b"q" if scn["plain"] else env(0, b"q")

    async def main():
        st = {"n": 0}

        async def receive():
            st["n"] += 1
            if st["n"] == 1:
                return {"type": "http.request", "body": body, "more_body": False}
            await asyncio.Event().wait()

        async def send(m):
            if m["type"] == "http.response.start":
                out["status"], out["h"] = m["status"], [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in m.get("headers", [])]
            elif m["type"] == "http.response.body":
                out["b"] += m.get("body", b"")
            elif m["type"] == "http.response.trailers":
                out["t"] += [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in m.get("headers", [])]
        scope = {"type": "http", "method": "POST", "path": PATH, "root_path": "", "query_string": b"", "client": ("9.9.9.9", 1),
                 "http_version": "2", "headers": [(a.encode(), b.encode()) for a, b in req_headers(scn)], "extensions": {"http.response.trailers": {}}}
        try:
            await app(scope, receive, send)
        except Exception:
            pass
    run_virtual(main)
    return exc, out


def run_wsgi(scn):
    exc = make_error(scn)

    def fn(request, ctx):
        raise exc

    def gen(request, ctx):
        for i in range(scn["after"]):
            yield Msg(b"m%d" % i)
        raise exc
    ep = {"unary": EndpointSync.unary, "client": EndpointSync.client_stream, "server": EndpointSync.server_stream, "bidi": EndpointSync.bidi_stream}[
        scn["kind"]](method=MI, function=gen if scn["kind"] in ("server", "bidi") else fn)
    app = WApp(endpoints={PATH: ep}, codecs=[RawCodec()], compressions=[TOY])
    out = {"status": 0, "h": [], "b": b"", "t": []}
    body = b"q" if scn["plain"] else env(0, b"q")
    environ = {"REQUEST_METHOD": "POST", "SCRIPT_NAME": "", "PATH_INFO": PATH, "QUERY_STRING": "", "SERVER_NAME": "s", "SERVER_PORT": "80",
               "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.errors": io.StringIO(), "wsgi.input": io.BytesIO(body),
               "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False, "CONTENT_LENGTH": str(len(body)),
               "wsgi.ext.http.send_trailers": lambda h: out["t"].extend((a.lower(), b) for a, b in h)}
    for a, b in req_headers(scn):
        environ["CONTENT_TYPE" if a == "content-type" else "HTTP_" + a.upper().replace("-", "_")] = b

    def start(status, headers, exc_info=None):
        out["status"], out["h"] = int(status.split()[0]), [(a.lower(), b) for a, b in headers]
        return lambda b: None
    try:
        it = app(environ, start)
        try:
            for part in it:
                out["b"] += part
        finally:
            if hasattr(it, "close"):
                it.close()
    except Exception:
        pass
    return exc, out


def frames(b, enc):
    out = []
    while len(b) >= 5:
        n = int.from_bytes(b[1:5], "big")
        if len(b) < 5 + n:
            raise ValueError("cut")
        d = b[5:5 + n]
        if b[0] & 1:
            if enc != "toy":
                raise ValueError("flag")
            d = TOY.decompress(d)
        out.append((b[0], d))
        b = b[5 + n:]
    if b:
        raise ValueError("cut")
    return out


def jfields(d):
    f = {"keys": list(d), "jhas": "code" in d, "jcode": d.get("code", ""), "jmsg": B(d.get("message", "")), "jdet": []}
    for x in d.get("details", []):
        f["keys"] += ["detail." + k for k in x]
        f["jdet"].append([B(x["type"]), B(x["value"])])
    return f


def gfields(kv):
    return {"gst": [B(v) for k, v in kv if k == "grpc-status"], "gmsg": [B(v) for k, v in kv if k == "grpc-message"],
            "gdet": [B(v) for k, v in kv if k == "grpc-status-details-bin"]}


def enc(scn):
    exc, out = (run_asgi if scn["api"] == "asgi" else run_wsgi)(scn)
    proto = scn["proto"]
    h = dict(out["h"])
    f = raised(scn, exc)
    f.update(proto="plain" if scn["plain"] else proto, status=out["status"], ctype=h.get("content-type", ""), cenc=h.get("content-encoding", ""))
    try:
        if scn["plain"]:
            f.update(jfields(json.loads(out["b"])))
        else:
            fr = frames(out["b"], h.get(ENC_H[proto], "identity"))
            if proto == "connect":
                end = [d for fl, d in fr if fl & 2]
                if len(end) != 1:
                    return E("no_end_message")
                f.update(jfields(json.loads(end[0])["error"]))
            elif proto == "grpcweb":
                kv = list(out["h"])
                for fl, d in fr:
                    if fl & 128:
                        for line in d.decode("latin-1").split("\r\n"):
                            if line:
                                a, b = line.split(":", 1)
                                kv.append((a.strip().lower(), b.strip(" \t")))
                f.update(gfields(kv))
            else:
                f.update(gfields(out["h"] + out["t"]))
    except Exception as e:
        return E("unreadable_" + type(e).__name__)
    return E("enc", **f)


# ------------------------------------------------------------ reading

def esc(s, style):
    b = s.encode()
    if style == "none":
        return s
    o = ""
    for i, c in enumerate(b):
        outer = i in (0, len(b) - 1)
        keep = {"min": 0x20 <= c < 0x7F and c != 0x25 and not (c == 0x20 and outer), "all": False,
                "lower": chr(c).isalnum() and c < 128, "upper": (chr(c).isalnum() and c < 128) or c in b"-_.~"}[style]
        o += chr(c) if keep else ("%%%02x" if style == "lower" else "%%%02X") % c
    return o


def b64(v, pad):
    s = base64.b64encode(bytes(v)).decode()
    return s if pad else s.rstrip("=")


def jtext(scn, code):
    d = []
    if code is not None:
        d.append(("code", code))
    if not scn["nomsg"]:
        d.append(("message", scn["msg"]))
    if scn["det"]:
        ds = []
        for t, v, _ in scn["det"]:
            x = {"type": t, "value": b64(v, scn["pad"])}
            if scn["debug"]:
                x["debug"] = {"a": [1, None]}
            ds.append(x)
        d.append(("details", ds))
    if scn["extra"]:
        d.append(("future", {"x": 1}))
    if scn["rev"]:
        d.reverse()
    return dict(d)


def dec(scn):
    proto, plain, kind = scn["proto"], scn["plain"], scn["kind"]
    f = {"proto": "plain" if plain else proto}
    hs, tr, body, status = [], [], b"", 200
    if plain or proto == "connect":
        code = None if scn["code"] == 0 else scn["unknown"] if scn["code"] == 17 else CODES[scn["code"]]
        d = jtext(scn, code)
        f.update(jhas=bool(code), jcode=code or "", jmsg=B(d.get("message", "")), jdet=[[B(x["type"]), B(x["value"])] for x in d.get("details", [])])
        kw = {"ensure_ascii": scn["ascii"], "indent": 1 if scn["space"] else None}
        if plain:
            body = json.dumps(d, **kw).encode()
            status = scn["status"]
            hs.append(("content-type", "application/json" + ("; charset=utf-8" if scn["charset"] else "")))
        else:
            end = {"error": d}
            if scn["extra"]:
                end["metadata"] = {"x-a": ["1", "2"]}
            end = json.dumps(end, **kw).encode()
            hs.append(("content-type", CTYPE[proto] + "raw"))
            if scn["endcomp"]:
                hs.append((ENC_H[proto], "toy"))
            body = b"".join(env(0, b"m%d" % i) for i in range(scn["after"])) + (env(3, TOY.compress(end)) if scn["endcomp"] else env(2, end))
    else:
        hs.append(("content-type", CTYPE[proto] + "raw"))
        kv = [("grpc-status", str(scn["num"]))]
        f["gst"] = [B(kv[0][1])]
        if scn["msg"] or scn["order"] == 0:
            kv.append(("grpc-message", esc(scn["msg"], scn["style"])))
            f["gmsg"] = [B(kv[1][1])]
        if scn["det"]:
            raw = status_bin(scn["num"], scn["msg"], [(t, v and bytes(v)) for t, v, _ in scn["det"]])
            if scn["unkf"]:
                raw += b"\x22\x02hi\x28\x07"
            kv.append(("grpc-status-details-bin", b64(raw, scn["pad"])))
            f["gdet"] = [B(kv[-1][1])]
        if scn["md"]:
            kv.append(("x-md", "1"))
        for _ in range(scn["order"]):
            kv.append(kv.pop(0))
        cs = {"low": str.lower, "title": str.title, "up": str.upper}[scn["case"]]
        body = b"".join(env(0, b"m%d" % i) for i in range(scn["after"]))
        if scn["where"] == "only":
            hs += kv
        elif proto == "grpc":
            tr = kv
        else:
            text = "".join("%s:%s%s\r\n" % (cs(a), scn["sp"], b) for a, b in kv).encode()
            if scn["endcomp"]:
                hs.append((ENC_H[proto], "toy"))
                body += env(129, TOY.compress(text))
            else:
                body += env(128, text)
    f["status"] = status

    def H(p):
        h = Headers()
        for a, b in p:
            h.add(a, b)
        return h
    conf = dict(codec=RawCodec(), protocol=PT[proto], accept_compression=[TOY])
    got = []

    def note(e):
        if isinstance(e, ConnectError):
            return dict(rcode=e.code.value, rmsg=B(e.message), rdet=[[B(d.type_name), list(d.message_bytes)] for d in e.details])
        return dict(rcode="ok" if e is None else "raw:" + type(e).__name__)
    if scn["flav"] == "sync":
        class S:
            def execute_sync(self, request):
                if not isinstance(request.content, (bytes, bytearray)):
                    list(request.content)
                return SyncResponse(status=status, headers=H(hs), content=iter([body] if body else []), trailers=H(tr))
        c = ConnectClientSync("http://h.example:81", http_client=SyncClient(S()), **conf)
        try:
            if kind == "unary":
                c.execute_unary(request=Msg(b"q"), method=MI)
            elif kind == "client":
                c.execute_client_stream(request=iter([Msg(b"q")]), method=MI)
            elif kind == "server":
                got += list(c.execute_server_stream(request=Msg(b"q"), method=MI))
            else:
                got += list(c.execute_bidi_stream(request=iter([Msg(b"q")]), method=MI))
            r = note(None)
        except Exception as e:
            r = note(e)
        f.update(r)
        return E("dec", **f)

    async def main():
        class T:
            async def execute(self, request):
                if not isinstance(request.content, (bytes, bytearray)):
                    async for _ in request.content:
                        pass

                async def content():
                    if body:
                        yield body
                return Response(status=status, headers=H(hs), content=content(), trailers=H(tr))
        c = ConnectClient("http://h.example:81", http_client=Client(T()), **conf)

        async def one():
            yield Msg(b"q")
        try:
            if kind == "unary":
                await c.execute_unary(request=Msg(b"q"), method=MI)
            elif kind == "client":
                await c.execute_client_stream(request=one(), method=MI)
            else:
                s = c.execute_server_stream(request=Msg(b"q"), method=MI) if kind == "server" else c.execute_bidi_stream(request=one(), method=MI)
                async for m in s:
                    got.append(m)
            return note(None)
        except Exception as e:
            return note(e)
    r, err = run_virtual(main)
    if err:
        return E("deadlock")
    f.update(r)
    return E("dec", **f)


def run(scn):
    return {"cfg": {"k": scn["dir"]}, "events": [enc(scn) if scn["dir"] == "enc" else dec(scn)]}
