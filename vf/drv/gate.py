"""Sends one HTTP request of any shape to the real applications (HttpGate.tla)."""
import base64
import gzip
import json
import time
import urllib.parse

from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import Endpoint, EndpointSync

from ..toys import Intern, Msg, ToyComp, payload
from ..vloop import run_virtual
from ..wire import ACC_H, ENC_H, E, ResponseParser, env, grpc_term
from .server import App, WApp, pieces

TOY, TOY2 = ToyComp("toy"), ToyComp("toy2")
COMPS = {"toy": TOY, "toy2": TOY2}


class GMsg(Msg):
    __slots__ = ("codec",)


class GCodec:
    """Tags its bytes, so the codec that decoded or encoded a message shows."""

    def __init__(self, name):
        self._name = name
        self.p = b"<" + name.encode() + b">"

    def name(self):
        return self._name

    def encode(self, message):
        return self.p + message.data

    def decode(self, data, message_class):
        data = bytes(data)
        if not data.startswith(self.p):
            raise ValueError("undecodable bytes for codec " + self._name)
        m = GMsg(data[len(self.p):])
        m.codec = self._name
        return m


NAMES = ("raw", "alt", "proto", "json")
CODECS = {n: GCodec(n) for n in NAMES}


def plan(scn):
    it = Intern()
    c = CODECS.get(scn["codec"], CODECS["raw"])
    m = scn["msg"]
    if "b64raw" in m:
        core = base64.b64decode(m["b64raw"])
    else:
        core = payload(m["id"], m["len"])
    data = c.encode(Msg(core))
    if scn.get("bad") == "decode":
        data = b"<zz>" + core
    dec = len(data)
    comp = COMPS.get((scn.get("enc") or "").lower())
    plain = scn["kind"] == "unary" and scn["fam"] == "unary"
    w = data
    if scn["verb"] == "GET":
        comp = COMPS.get(scn.get("get", {}).get("comp") or "")
        plain = True
    if comp is not None and (plain or scn.get("flag")):
        if scn.get("bad") == "decomp":
            w = b"garbage" + data
        elif scn.get("bomb"):
            dec = scn["bomb"]
            w = comp.bomb(dec)
        else:
            w = comp.compress(data) if (data or not plain) else data
    body = w if plain else env(1 if scn.get("flag") else 0, w)
    cfg = {"api": scn["api"], "fam": scn["fam"], "kind": scn["kind"], "nse": scn["nse"],
           "route": "hit" if scn["route"]["hit"] else "miss", "verb": scn["verb"], "codec": scn["codec"],
           "ver": scn.get("verc", "none"), "tmo": scn.get("tmoc", "none"), "tms": scn.get("tms", -1),
           "enc": scn.get("encc", "none"), "flag": bool(scn.get("flag")), "get": scn["verb"] == "GET",
           "gmsg": scn.get("get", {}).get("cls", "ok"), "id": it.put(core), "dec": dec, "bad": scn.get("bad", ""),
           "limit": scn.get("limit", -1), "body": "ok", "accept": list(scn.get("accept") or []),
           "supported": ["toy", "toy2", "identity"], "h11": scn.get("h11", True)}
    if scn.get("bomb") and not scn.get("bad"):
        # the expansion is not a message of any codec: it is oversized, or undecodable
        cfg["bad"] = "decode"
    if scn["api"] == "wsgi" and scn.get("clen", "exact").startswith("more") and scn["verb"] != "GET" and plain:
        cfg["body"] = "short"
    if scn["api"] == "asgi" and "disc_at" in scn:
        cfg["body"] = "disc"
        ps = pieces(body, scn.get("cuts", []))
        d = min(scn["disc_at"], len(ps) - 1)
        if scn["kind"] in ("client", "bidi") and scn["verb"] != "GET" and len(b"".join(ps[:d])) == len(body):
            scn["disc_at"] = 0  # a streaming handler may see a message before the disconnect (RpcServer covers that)
    return body, cfg, it


def query(scn, body):
    g = scn.get("get", {})
    ps = []
    if g.get("cls") != "missing":
        if "rawmsg" in g:
            ps.append("message=" + urllib.parse.quote(g["rawmsg"], safe=""))
            if g.get("b64", True):
                ps.append("base64=1")
        elif g.get("b64", True):
            s = base64.urlsafe_b64encode(body).decode()
            if not g.get("pad"):
                s = s.rstrip("=")
            ps.append("message=" + (urllib.parse.quote(s, safe="") if g.get("quote") else s))
            ps.append("base64=1")
        else:
            ps.append("message=" + urllib.parse.quote_from_bytes(body, safe=g.get("safe", "")))
            if g.get("b64v") is not None:
                ps.append("base64=" + g["b64v"])
    if g.get("comp"):
        ps.append("compression=" + g["comp"])
    if g.get("encoding") is not None:
        ps.append("encoding=" + g["encoding"])
    if g.get("v", True):
        ps.append("connect=" + g.get("vbad", "v1"))
    if g.get("extra"):
        ps.append("x=" + g["extra"])
    k = g.get("rot", 0) % max(1, len(ps))
    ps = ps[k:] + ps[:k]
    return "&".join(ps)


def headers_of(scn):
    h = []
    if scn.get("ct") is not None and scn["verb"] != "GET":
        h.append(("content-type", scn["ct"]))
    elif scn.get("ct") and scn["fam"] in ("grpc", "grpcweb", "connect"):
        h.append(("content-type", scn["ct"]))
    if scn.get("ver") is not None:
        h.append(("connect-protocol-version", scn["ver"]))
    if scn.get("tmo") is not None:
        h.append(("connect-timeout-ms" if scn["fam"] in ("unary", "connect") else "grpc-timeout", scn["tmo"]))
    plain = scn["kind"] == "unary" and scn["fam"] == "unary"
    if scn.get("enc") is not None and scn["verb"] != "GET":
        h.append(("content-encoding" if plain else ENC_H.get(scn["fam"], "content-encoding"), scn["enc"]))
    if scn.get("accept") is not None:
        h.append(("accept-encoding" if plain else ACC_H.get(scn["fam"], "accept-encoding"), scn.get("asep", ", ").join(scn["accept"])))
    h.append(("host", "h.example:81"))
    h.append(("x-user", "v 1"))
    return h


class Common:
    def __init__(self, scn, log, it):
        self.scn, self.log, self.it = scn, log, it

    def h(self, ctx):
        t = ctx.timeout_ms
        hv = ctx.request_headers.getall("X-User") if "x-user" in ctx.request_headers else []
        ok = list(hv) == ["v 1"] and ctx.http_method == self.scn["verb"] and ctx.method.name == "M"
        self.log(E("h", n=-1 if t is None else max(-2, min(2000000000, int(round(t)))), ok=ok))

    def m(self, msg):
        self.log(E("m", id=self.it.get(msg.data), code=getattr(msg, "codec", "?")))


MI = {}


def mi(nse, name="M"):
    k = (nse, name)
    if k not in MI:
        MI[k] = MethodInfo(name=name, service_name="svc.S", input=GMsg, output=GMsg,
                           idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS if nse else IdempotencyLevel.UNKNOWN)
    return MI[k]


def respond(scn, log, it, status, headers, body, trailers):
    """project the HTTP response"""
    hd = [(k.lower(), v) for k, v in headers]

    def get(n):
        return [v for k, v in hd if k == n]
    kv = []
    if status == 405:
        kv = [["allow", x.strip()] for v in get("allow") for x in v.split(",") if x.strip()]
    if status == 415:
        kv = [["accept-post", x.strip()] for v in get("accept-post") for x in v.split(",") if x.strip()]
    plain = scn["kind"] == "unary" and scn["fam"] == "unary"
    ct = (get("content-type") or [""])[0]
    if status != 200:
        code, ok = "", True
        if body:
            try:
                d = json.loads(body)
                code = d["code"]
                ok = ct == "application/json" and set(d) <= {"code", "message", "details"}
            except Exception:
                code, ok = "?", False
        else:
            ok = status in (404, 405, 415)
        log(E("resp", n=status, code=code, ok=ok, kv=kv))
        return
    if plain:
        encs = get("content-encoding")
        enc = encs[0] if len(encs) == 1 else ("identity" if not encs else "?")
        name = ct[len("application/"):] if ct.startswith("application/") else "?"
        data = body
        ok = True
        try:
            if enc in COMPS:
                data = COMPS[enc].decompress(body)
            m = CODECS[name].decode(data, GMsg)
            i = it.get(m.data)
        except Exception:
            ok, i = False, -3
        log(E("resp", n=200, code="ok", ok=ok, msg=enc, id=i, kv=[["content-type", name]]))
        return
    sub = []
    encs = get(ENC_H.get(scn["fam"], "?"))
    enc = encs[0] if len(encs) == 1 else ("identity" if not encs else "?")
    pref = {"connect": "application/connect+", "grpc": "application/grpc+", "grpcweb": "application/grpc-web+"}.get(scn["fam"], "?")
    name = ct[len(pref):] if ct.startswith(pref) else "?"

    class It2:
        def get(self, b):
            try:
                return it.get(CODECS[name].decode(b, GMsg).data)
            except Exception:
                return -3
    p = ResponseParser(scn["fam"], sub.append, It2(), COMPS, enc)
    p.feed(body)
    p.finish()
    msgs = [e for e in sub if e["ev"] == "s_msg"]
    terms = [e for e in sub if e["ev"] == "s_term"]
    junk = any(e["ev"] == "s_junk" for e in sub)
    if scn["fam"] == "grpc":
        t = grpc_term(trailers) if trailers is not None else None
        terms = [{"ok": t[0], "code": t[1]}] if t else []
    ok = not junk and len(terms) == 1
    if ok and terms[0]["ok"]:
        log(E("resp", n=200, code="ok", ok=len(msgs) == 1, msg=enc, id=msgs[0]["id"] if msgs else -4, kv=[["content-type", name]]))
    else:
        log(E("resp", n=200, code=terms[0]["code"] if terms else "?", ok=ok and not msgs))


def run_asgi(scn):
    body, cfg, it = plan(scn)
    ev = []
    log = ev.append
    k = Common(scn, log, it)

    async def unary(req, ctx):
        k.h(ctx)
        k.m(req)
        return req

    async def server(req, ctx):
        k.h(ctx)
        k.m(req)
        yield req

    async def client(reqs, ctx):
        k.h(ctx)
        last = None
        async for r in reqs:
            k.m(r)
            last = r
        return last

    async def bidi(reqs, ctx):
        k.h(ctx)
        async for r in reqs:
            k.m(r)
            yield r

    async def other(req, ctx):
        log(E("crash", msg="other endpoint ran"))
        return req
    mk = {"unary": Endpoint.unary, "server": Endpoint.server_stream, "client": Endpoint.client_stream, "bidi": Endpoint.bidi_stream}
    fn = {"unary": unary, "server": server, "client": client, "bidi": bidi}[scn["kind"]]
    eps = {"/svc.S/M": mk[scn["kind"]](mi(scn["nse"]), fn), "/svc.S/N": Endpoint.unary(mi(False, "N"), other)}
    app = App(service=object(), endpoints=lambda s: eps, codecs=[CODECS[n] for n in NAMES], compressions=[TOY, TOY2],
              read_max_bytes=None if scn.get("limit", -1) < 0 else scn["limit"])
    is_get = scn["verb"] == "GET"
    ps = [b""] if is_get else pieces(body, scn.get("cuts", []))
    disc = scn.get("disc_at")
    msgs = []
    for i, p in enumerate(ps):
        if disc is not None and i == min(disc, len(ps) - 1):
            break
        last = i == len(ps) - 1
        d = {"type": "http.request", "body": p, "more_body": not last or bool(scn.get("sep_end"))}
        if last and not scn.get("sep_end") and scn.get("omit"):
            d.pop("more_body")
            if not p:
                d.pop("body")
        msgs.append(d)
        if scn.get("empties"):
            msgs.insert(-1, {"type": "http.request", "body": b"", "more_body": True})
    if scn.get("sep_end") and disc is None:
        msgs.append({"type": "http.request"} if scn.get("omit") else {"type": "http.request", "body": b"", "more_body": False})
    if disc is not None:
        msgs.append({"type": "http.disconnect"})
    out = {"status": None, "headers": [], "body": b"", "trailers": None, "done": False}

    async def main():
        import asyncio

        async def receive():
            if msgs:
                return msgs.pop(0)
            await asyncio.Event().wait()

        async def send(m):
            t = m["type"]
            if t == "http.response.start":
                if out["status"] is not None:
                    log(E("crash", msg="second start"))
                out["status"] = m["status"]
                out["headers"] = [(a.decode("latin-1"), b.decode("latin-1")) for a, b in m.get("headers", [])]
            elif t == "http.response.body":
                out["body"] += m.get("body", b"")
                if not m.get("more_body", False):
                    out["done"] = True
            elif t == "http.response.trailers":
                out["trailers"] = (out["trailers"] or []) + [(a.decode("latin-1"), b.decode("latin-1")) for a, b in m["headers"]]
        r = scn["route"]
        scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1" if scn.get("h11", True) else "2",
                 "method": scn["verb"], "scheme": "http", "path": r["path"], "root_path": r.get("root", ""),
                 "raw_path": r["path"].encode(), "query_string": query(scn, body).encode() if is_get else b"",
                 "headers": [(a.encode("latin-1"), b.encode("latin-1")) for a, b in headers_of(scn)],
                 "client": ("10.0.0.9", 5), "server": ("h", 81), "extensions": {"http.response.trailers": {}}}
        exc = ""
        try:
            await app(scope, receive, send)
        except Exception as e:
            exc = type(e).__name__
        if out["status"] is not None and out["done"]:
            respond(scn, log, it, out["status"], out["headers"], out["body"], out["trailers"])
        log(E("end", code=exc))
    _, err = run_virtual(main)
    if err:
        log(E("deadlock", msg=err))
    return {"cfg": cfg, "events": ev}


class ShortReader:
    """wsgi.input returning at most the scripted number of bytes per read."""

    def __init__(self, data, pattern):
        self.data, self.pos, self.pat, self.i = data, 0, pattern or [1 << 30], 0

    def read(self, n=-1):
        if self.pos >= len(self.data):
            return b""
        if n is None or n < 0:
            n = len(self.data)
        k = min(n, self.pat[self.i % len(self.pat)])
        self.i += 1
        r = self.data[self.pos:self.pos + k]
        self.pos += len(r)
        return r

    def readline(self, *a):
        return self.read(*a)

    def __iter__(self):
        return iter(lambda: self.read(4096), b"")


def run_wsgi(scn):
    body, cfg, it = plan(scn)
    ev = []
    log = ev.append
    k = Common(scn, log, it)

    def unary(req, ctx):
        k.h(ctx)
        k.m(req)
        return req

    def server(req, ctx):
        k.h(ctx)
        k.m(req)
        yield req

    def client(reqs, ctx):
        k.h(ctx)
        last = None
        for r in reqs:
            k.m(r)
            last = r
        return last

    def bidi(reqs, ctx):
        k.h(ctx)
        for r in reqs:
            k.m(r)
            yield r

    def other(req, ctx):
        log(E("crash", msg="other endpoint ran"))
        return req
    mk = {"unary": EndpointSync.unary, "server": EndpointSync.server_stream, "client": EndpointSync.client_stream,
          "bidi": EndpointSync.bidi_stream}
    fn = {"unary": unary, "server": server, "client": client, "bidi": bidi}[scn["kind"]]
    eps = {"/svc.S/M": mk[scn["kind"]](method=mi(scn["nse"]), function=fn),
           "/svc.S/N": EndpointSync.unary(method=mi(False, "N"), function=other)}
    app = WApp(endpoints=eps, codecs=[CODECS[n] for n in NAMES], compressions=[TOY, TOY2],
               read_max_bytes=None if scn.get("limit", -1) < 0 else scn["limit"])
    is_get = scn["verb"] == "GET"
    data = b"" if is_get else body
    clen = scn.get("clen", "exact")
    r = scn["route"]
    env_ = {"REQUEST_METHOD": scn["verb"], "PATH_INFO": r["path"], "SCRIPT_NAME": r.get("root", ""),
            "QUERY_STRING": query(scn, body) if is_get else "", "SERVER_NAME": "h", "SERVER_PORT": "81",
            "SERVER_PROTOCOL": "HTTP/1.1" if scn.get("h11", True) else "HTTP/2", "wsgi.version": (1, 0),
            "wsgi.url_scheme": "http", "wsgi.errors": __import__("io").StringIO(), "wsgi.multithread": False,
            "wsgi.multiprocess": False, "wsgi.run_once": False, "REMOTE_ADDR": "10.0.0.9", "REMOTE_PORT": "5"}
    if r.get("omit"):
        for n in ("PATH_INFO", "SCRIPT_NAME"):
            if not env_[n]:
                del env_[n]
    extra = 0
    plain = scn["kind"] == "unary" and scn["fam"] == "unary"
    declared = len(data)
    if clen == "exact" or clen.startswith("extra") and not plain:
        env_["CONTENT_LENGTH"] = str(len(data))
    elif clen.startswith("extra"):
        env_["CONTENT_LENGTH"] = str(len(data))
        extra = int(clen[5:]) if data else 0
    elif clen.startswith("more"):
        env_["CONTENT_LENGTH"] = str(len(data) + (int(clen[4:]) if plain else 0))
    elif clen == "empty":
        env_["CONTENT_LENGTH"] = ""
    for a, b in headers_of(scn):
        if a == "content-type":
            env_["CONTENT_TYPE"] = b
        else:
            env_["HTTP_" + a.upper().replace("-", "_")] = b
    if scn["fam"] == "unary" and scn.get("ct") is None and scn.get("ctempty"):
        env_["CONTENT_TYPE"] = ""
    inp = ShortReader(data + b"z" * extra, scn.get("short"))
    env_["wsgi.input"] = inp
    out = {"status": None, "headers": [], "trailers": None}

    def send_trailers(h):
        out["trailers"] = (out["trailers"] or []) + list(h)
    env_["wsgi.ext.http.send_trailers"] = send_trailers

    def start_response(status, headers, exc_info=None):
        if out["status"] is not None:
            log(E("crash", msg="second start"))
        out["status"] = int(status.split()[0])
        out["headers"] = list(headers)
        return lambda b: None
    exc = ""
    old = time.monotonic
    time.monotonic = lambda: 4321.0
    try:
        body_out = b""
        res = app(env_, start_response)
        for b in res:
            body_out += b
        if hasattr(res, "close"):
            res.close()
    except Exception as e:
        exc = type(e).__name__
    finally:
        time.monotonic = old
    if out["status"] is not None and not exc:
        respond(scn, log, it, out["status"], out["headers"], body_out, out["trailers"])
    log(E("end", code=exc, n=max(0, min(declared, len(data)) - inp.pos)))
    return {"cfg": cfg, "events": ev}


def run(scn):
    return run_asgi(scn) if scn["api"] == "asgi" else run_wsgi(scn)
