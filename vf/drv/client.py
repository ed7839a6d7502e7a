"""Drives one RPC through the real clients against a scripted pyqwest transport (RpcClient.tla)."""
import asyncio
import base64
import contextlib
import gc
import json
import time
import urllib.parse

from pyqwest import Client, Headers, Response, StreamError, StreamErrorCode, SyncClient, SyncResponse

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType

from ..toys import Intern, Msg, RawCodec, ToyComp, payload
from ..vloop import NOISE, run_virtual
from ..wire import ACC_H, CODES, CTYPE, ENC_H, E, env
from .server import pieces

TOY, TOY2 = ToyComp("toy"), ToyComp("toy2")
COMPS = {"toy": TOY, "toy2": TOY2}
PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}


def pct(s, style="min"):
    out = ""
    bs = s.encode("utf-8")
    for i, b in enumerate(bs):
        # outer blanks are field padding to a header parser, so a peer must escape them
        if style == "min" and 0x20 <= b < 0x7F and b != 0x25 and not (b == 0x20 and i in (0, len(bs) - 1)):
            out += chr(b)
        elif style == "all" and chr(b).isalnum() and b < 0x80:
            out += chr(b)
        else:
            out += ("%%%02x" if style == "lower" else "%%%02X") % b
    return out


def status_bin(code, msg, details=()):
    """google.rpc.Status, encoded by hand"""
    def vi(n):
        o = b""
        while True:
            b = n & 0x7F
            n >>= 7
            if n:
                o += bytes([b | 0x80])
            else:
                return o + bytes([b])

    def ld(f, d):
        return vi(f << 3 | 2) + vi(len(d)) + d
    r = b""
    if code:
        r += vi(1 << 3) + vi(code)
    if msg:
        r += ld(2, msg.encode())
    for t, v in details:
        r += ld(3, ld(1, ("type.googleapis.com/" + t).encode()) + (ld(2, v) if v else b""))
    return r


def grpc_pairs(t):
    """symbolic terminal -> (header pairs, class)"""
    k = t["k"]
    kv = [("grpc-status", "0")] if k == "ok" else []
    if k == "missing":
        kv, cls = [], {"k": "err", "code": "internal", "msg": "*"}
    elif k == "ok":
        if t.get("msg"):
            kv.append(("grpc-message", pct(t["msg"])))
        cls = {"k": "ok", "code": "", "msg": ""}
    elif k == "raw":
        kv, cls = [tuple(p) for p in t["kv"]], dict(t["cls"])
    else:
        kv = [("grpc-status", str(CODES.index(t["code"])))]
        m = t.get("msg", "")
        if m:
            kv.append(("grpc-message", pct(m, t.get("style", "min"))))
        if "details" in t:
            b = base64.b64encode(status_bin(CODES.index(t["code"]), m, [(a, bytes(v)) for a, v in t["details"]])).decode()
            kv.append(("grpc-status-details-bin", b if t.get("pad") else b.rstrip("=")))
        cls = {"k": "err", "code": t["code"], "msg": m}
    kv += [tuple(p) for p in t.get("md", [])]
    return kv, cls


def connect_end(t):
    k = t["k"]
    if k == "raw":
        return t["raw"].encode(), dict(t["cls"])
    d = {}
    if t.get("md"):
        d["metadata"] = {}
        for a, b in t["md"]:
            d["metadata"].setdefault(a, []).append(b)
    if k == "ok":
        return json.dumps(d).encode(), {"k": "ok", "code": "", "msg": ""}
    d["error"] = {"code": t["code"]}
    if t.get("msg"):
        d["error"]["message"] = t["msg"]
    if "details" in t:
        d["error"]["details"] = [{"type": a, "value": base64.b64encode(bytes(v)).decode().rstrip("=" if not t.get("pad") else "")}
                                 for a, v in t["details"]]
    return json.dumps(d, ensure_ascii=bool(t.get("ascii", True))).encode(), {"k": "err", "code": t["code"], "msg": t.get("msg", "")}


def err_body(b):
    """non-enveloped body -> (bytes, class)"""
    k = b["k"]
    cls = {"k": k, "code": b.get("code", ""), "msg": b.get("msg", ""), "id": 0, "dec": 0, "bad": ""}
    if k == "err" or k == "unknowncode" or k == "nocode":
        d = {}
        if k == "err":
            d["code"] = b["code"]
        if k == "unknowncode":
            d["code"] = "no_such_code"
        if b.get("msg"):
            d["message"] = b["msg"]
        if "details" in b:
            d["details"] = [{"type": a, "value": base64.b64encode(bytes(v)).decode().rstrip("=")} for a, v in b["details"]]
        d.update(b.get("extra", {}))
        return json.dumps(d).encode(), cls
    return b.get("raw", "").encode("utf-8", "surrogateescape"), cls


def plan(scn):
    it = Intern()
    proto, kind = scn["proto"], scn["kind"]
    plain = proto == "connect" and kind == "unary"
    enc = scn.get("enc", "")
    accept = scn.get("accept", ["toy", "toy2"])
    neg = enc in ("toy", "toy2") and enc in accept
    encc = "none" if not enc else ("ok" if enc == "identity" or enc in accept else "unknown")
    comp = COMPS.get(enc, TOY)
    frames, body = [], b""
    endflag = 2 if proto == "connect" else 128
    for f in scn.get("frames", []):
        tk = {"k": "", "code": "", "msg": ""}
        if "end" in f:
            if proto == "connect":
                pl, tk = connect_end(f["end"])
            else:
                kv, tk = grpc_pairs(f["end"])
                sep = f["end"].get("sep", ": ")
                pl = "".join("%s%s%s\r\n" % (k, sep, v) for k, v in kv).encode()
        else:
            pl = payload(f["id"], f["len"])
            if f.get("bad") == "decode":
                pl = b"\xffBAD" + pl
        if f.get("flag"):
            if f.get("bomb"):
                pl = b"x" * f["bomb"]
                w = comp.bomb(f["bomb"])
            elif f.get("bad") == "decomp":
                w = b"garbage" + pl
            else:
                w = comp.compress(pl)
        else:
            w = pl
        frames.append({"id": it.put(pl), "wire": len(w), "flag": 1 if f.get("flag") else 0, "dec": len(pl),
                       "bad": f.get("bad", ""), "end": 1 if "end" in f else 0,
                       "tk": tk["k"], "tcode": tk["code"], "tmsg": tk["msg"]})
        body += env((1 if f.get("flag") else 0) | (endflag if "end" in f else 0), w)
    tail = scn.get("tail", 0)
    if tail:
        body += env(0, payload(77, max(tail, 6)))[:tail]
    none = {"k": "none", "code": "", "msg": ""}
    trl, hst = dict(none), dict(none)
    trailers, hstatus = [], []
    if scn.get("trl") and proto == "grpc":
        trailers, trl = grpc_pairs(scn["trl"])
        if scn["trl"]["k"] == "missing":
            trl = dict(none)
    if scn.get("hst") and proto != "connect":
        hstatus, hst = grpc_pairs(scn["hst"])
    bc = {"k": "none", "code": "", "msg": "", "id": 0, "dec": 0, "bad": ""}
    status = scn.get("status", 200)
    if status != 200:
        body, bc = err_body(scn.get("body", {"k": "none"}))
    elif plain:
        m = scn.get("msg", {"id": 1, "len": 3})
        body = (b"\xffBAD" if m.get("bad") else b"") + payload(m["id"], m["len"])
        bc = {"k": "msg", "code": "", "msg": "", "id": it.put(body), "dec": len(body), "bad": "decode" if m.get("bad") else ""}
    cfg = {"api": scn["api"], "proto": proto, "kind": kind, "plain": plain, "status": status, "ctype": scn.get("ctype", "ok"),
           "enc": encc, "neg": neg, "limit": scn.get("limit", -1), "timeout": scn.get("timeout", -1), "frames": frames,
           "tail": tail if status == 200 and not plain else 0, "trl": trl, "hst": hst, "body": bc}
    if plain or status != 200:
        cfg["frames"] = []
    base = CTYPE[proto]
    cn = scn.get("codec", "raw")
    ct = {"ok": ("application/" if plain else base) + cn,
          "codec": ("application/other" if plain else base + "other"),
          "json": "application/json", "bad": scn.get("ctv", "text/html")}[cfg["ctype"]]
    if scn.get("ctv") and cfg["ctype"] in ("ok", "json", "codec"):
        ct = scn["ctv"]
    headers = [("content-type", ct)] if ct else []
    if enc:
        headers.append(("content-encoding" if plain else ENC_H[proto], enc))
    headers += hstatus
    headers += [tuple(p) for p in scn.get("hdrs", [])]
    return body, cfg, it, headers, trailers


class ReqParser:
    """Projects the request body the client writes."""

    def __init__(self, scn, log, it):
        self.buf, self.log, self.it, self.scn = b"", log, it, scn

    def feed(self, data):
        self.buf += bytes(data)
        while len(self.buf) >= 5:
            n = int.from_bytes(self.buf[1:5], "big")
            if len(self.buf) < 5 + n:
                return
            self.one(self.buf[0], self.buf[5:5 + n])
            self.buf = self.buf[5 + n:]

    def one(self, flag, data):
        comp = COMPS.get(self.scn.get("send", ""))
        if flag not in (0, 1) or (flag == 1) != (comp is not None):
            self.log(E("w_junk"))
            return
        if comp is not None:
            try:
                data = comp.decompress(data)
            except Exception:
                self.log(E("w_junk"))
                return
        self.log(E("w_msg", id=self.it.get(data)))

    def end(self):
        if self.buf:
            self.log(E("w_junk"))
        self.log(E("w_end"))


def head_ok(request, scn):
    """Request line and the protocol headers a server needs (projection to one boolean)."""
    h = request.headers
    proto = scn["proto"]
    plain = proto == "connect" and scn["kind"] == "unary"
    send = scn.get("send", "")
    ok = request.url.split("?")[0] == "http://h.example:81/svc.S/M" and request.method == "POST"
    ok = ok and h.get("content-type") == ("application/" if plain else CTYPE[proto]) + scn.get("codec", "raw")
    ench = "content-encoding" if plain else ENC_H[proto]
    got = h.get(ench)
    ok = ok and (got == send if send in ("toy", "toy2") else got in (None, "identity"))
    acc = "accept-encoding" if plain else ACC_H[proto]
    offered = [x.strip() for x in (h.get(acc) or "").split(",") if x.strip()]
    ok = ok and [x for x in offered if x != "identity"] == list(scn.get("accept", ["toy", "toy2"]))
    if proto == "connect":
        ok = ok and h.get("connect-protocol-version") == "1"
    elif proto == "grpc":
        ok = ok and h.get("te") == "trailers"
    return ok


def mk_fault(k):
    if k == "net":
        return ConnectionError("connection refused")
    if k == "deadline":
        return TimeoutError("timed out")
    code = getattr(StreamErrorCode, k)
    return StreamError("stream reset", code)


def steps_of(scn, body):
    """-> list of ('delay',ms)|('chunk',b)|('fault',k)|('hang',)|('cancel',) then eof; index 0 precedes the head"""
    ps = [p for p in pieces(body, scn.get("cuts", [])) if p]
    if scn.get("gap"):
        ps = [x for p in ps for x in (p, b"")]
    out = [[] for _ in range(len(ps) + 1)]
    for i, p in enumerate(ps):
        out[i + 1].append(("chunk", p))
    for i, ms in scn.get("delays", []):
        out[min(i, len(ps))].insert(0, ("delay", ms))
    f = scn.get("fault")
    if f:
        at = f["at"]
        if at > len(ps):
            out.append([("fault", f["k"])])
        else:
            out[at].insert(0, ("fault", f["k"]))
    return out


def conf(scn):
    lim = scn.get("limit", -1)
    return dict(codec=RawCodec(scn.get("codec", "raw")), protocol=PT[scn["proto"]], read_max_bytes=None if lim < 0 else lim,
                accept_compression=[COMPS[a] for a in scn.get("accept", ["toy", "toy2"])],
                send_compression=COMPS.get(scn.get("send", "")))


MI = MethodInfo(name="M", service_name="svc.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.UNKNOWN)
ADDR = "http://h.example:81"


KEPT = []


def log_err(log, e, ms):
    if isinstance(e, ConnectError):
        log(E("c_err", code=e.code.value, msg=e.message if isinstance(e.message, str) else "?", n=ms))
    else:
        log(E("c_err", id=1, code="raw", msg=type(e).__name__, n=ms))


def run_async(scn):
    body, cfg, it, headers, trailers = plan(scn)
    ev = []
    log = ev.append
    for i, ln in enumerate(scn.get("reqs", [2])):
        it.put(payload(50 + i, ln))
    steps = steps_of(scn, body)
    kind = scn["kind"]
    plain = cfg["plain"]
    unary_full = plain

    async def main():
        ctl = {}
        loop = asyncio.get_running_loop()
        tr = Headers()

        async def do(st):
            for s in st:
                if s[0] == "delay":
                    await asyncio.sleep(s[1] / 1000)
                elif s[0] == "fault":
                    k = s[1]
                    if k == "hang":
                        # nothing ever arrives: only the deadline or a cancellation ends the call
                        await asyncio.Event().wait()
                    if k == "cancel":
                        log(E("fault", code="cancel"))
                        ctl["task"].cancel()
                        await asyncio.Event().wait()
                    log(E("fault", code=k))
                    if scn.get("rst_trailers"):
                        for a, b in trailers:
                            tr.add(a, b)
                    raise mk_fault(k)
                else:
                    return s[1]
            return None

        class Content:
            def __init__(self):
                self.i = 1
                self.closed = False

            def __aiter__(self):
                return self

            async def __anext__(self):
                if not unary_full:
                    for _ in range(3):
                        await asyncio.sleep(0)
                    log(E("idle"))
                if self.i >= len(steps):
                    if not self.closed:
                        for a, b in trailers:
                            tr.add(a, b)
                        log(E("eof"))
                    raise StopAsyncIteration
                i = self.i
                self.i += 1
                b = await do(steps[i])
                if b is None:
                    return await self.__anext__()
                log(E("recv", n=len(b)))
                return b

            async def aclose(self):
                if not self.closed:
                    self.closed = True
                    log(E("rel"))
                    if scn.get("close_fail"):
                        log(E("fault", code="close"))
                        raise RuntimeError("cannot close")

        class T:
            async def execute(self, request):
                log(E("w_head", ok=head_ok(request, scn)))
                rp = ReqParser(scn, log, it)
                if isinstance(request.content, (bytes, bytearray, memoryview)):
                    data = bytes(request.content)
                    c = COMPS.get(scn.get("send", ""))
                    try:
                        log(E("w_msg", id=it.get(c.decompress(data) if c else data)))
                    except Exception:
                        log(E("w_junk"))
                    log(E("w_end"))
                else:
                    lim = scn.get("read_reqs")
                    n = 0
                    if lim is None or lim > 0:
                        async for c in request.content:
                            rp.feed(c)
                            n += 1
                            if lim is not None and n >= lim:
                                break
                        else:
                            rp.end()
                await do(steps[0])
                log(E("head"))
                ctl["content"] = c = Content()
                return Response(status=cfg["status"], headers=Headers(headers), content=c, trailers=tr)

        client = ConnectClient(ADDR, http_client=Client(T()), **conf(scn))

        async def reqs():
            for i, ln in enumerate(scn.get("reqs", [2])):
                if scn.get("req_hang") == i:
                    await asyncio.Event().wait()
                if scn.get("req_slow"):
                    await asyncio.sleep(scn["req_slow"] / 1000)
                m = Msg(payload(50 + i, ln))
                log(E("q_yield", id=it.get(m.data)))
                yield m

        def one():
            m = Msg(payload(50, scn.get("reqs", [2])[0]))
            log(E("q_yield", id=it.get(m.data)))
            return m

        tmo = scn.get("timeout", -1)
        kw = {"method": MI}
        if tmo >= 0:
            kw["timeout_ms"] = tmo
        t0 = loop.time()

        def ms():
            return min(int(round((loop.time() - t0) * 1000)), 10 ** 9)

        async def call():
            try:
                if kind == "unary":
                    r = await client.execute_unary(request=one(), **kw)
                    log(E("c_ret", id=it.get(r.data), n=ms()))
                elif kind == "client":
                    r = await client.execute_client_stream(request=reqs(), **kw)
                    log(E("c_ret", id=it.get(r.data), n=ms()))
                else:
                    s = (client.execute_server_stream(request=one(), **kw) if kind == "server" else
                         client.execute_bidi_stream(request=reqs(), **kw))
                    stop = scn.get("take")
                    n = 0
                    while True:
                        if stop is not None and n >= stop:
                            log(E("c_stop"))
                            await s.aclose()
                            break
                        try:
                            m = await s.__anext__()
                        except StopAsyncIteration:
                            log(E("c_end", n=ms()))
                            break
                        n += 1
                        log(E("c_msg", id=it.get(m.data)))
                        if scn.get("slow"):
                            await asyncio.sleep(scn["slow"] / 1000)
            except asyncio.CancelledError as e:
                KEPT.append(e)
                log_err(log, e, ms())
            except Exception as e:
                # callers keep errors, and with them the frames they came through
                KEPT.append(e)
                log_err(log, e, ms())

        base = set(asyncio.all_tasks())
        dl = loop.call_at(t0 + tmo / 1000, lambda: log(E("fault", code="deadline"))) if tmo >= 0 else None
        task = asyncio.ensure_future(call())
        ctl["task"] = task
        ca = scn.get("cancel_at")
        if ca is not None:
            def docancel():
                log(E("fault", code="cancel"))
                task.cancel()
            ca = loop.call_at(t0 + ca / 1000, docancel)
        await task
        if ca:
            ca.cancel()
        if dl:
            dl.cancel()
        del task
        ctl.pop("task")
        gc.collect(0)
        for _ in range(10):
            await asyncio.sleep(0)
        left = [t for t in asyncio.all_tasks() if t not in base and not t.done()]
        if NOISE and not scn.get("close_fail"):
            log(E("noise", code=NOISE[0]))
        log(E("end", n=len(left)))

    _, err = run_virtual(main)
    if err and not any(e["ev"] == "end" for e in ev):
        ev.append(E("deadlock", msg=err))
    return {"cfg": cfg, "events": ev}


def run_sync(scn):
    body, cfg, it, headers, trailers = plan(scn)
    ev = []
    log = ev.append
    for i, ln in enumerate(scn.get("reqs", [2])):
        it.put(payload(50 + i, ln))
    steps = steps_of(scn, body)
    kind = scn["kind"]
    tr = Headers()
    clock = {"t": 5000.0}
    tmo = scn.get("timeout", -1)
    dead = {"on": False}

    def advance(ms):
        clock["t"] += ms / 1000
        if tmo >= 0 and not dead["on"] and clock["t"] - 5000.0 >= tmo / 1000:
            dead["on"] = True
            log(E("fault", code="deadline"))

    def do(st):
        for s in st:
            if s[0] == "delay":
                advance(s[1])
            elif s[0] == "fault":
                k = {"hang": "deadline", "cancel": "net"}.get(s[1], s[1])
                log(E("fault", code=k))
                if scn.get("rst_trailers"):
                    for a, b in trailers:
                        tr.add(a, b)
                raise mk_fault(k)
            else:
                return s[1]
        return None

    class Content:
        def __init__(self):
            self.i, self.closed = 1, False

        def __iter__(self):
            return self

        def __next__(self):
            if not cfg["plain"]:
                log(E("idle"))
            while True:
                if self.i >= len(steps):
                    if not self.closed:
                        for a, b in trailers:
                            tr.add(a, b)
                        log(E("eof"))
                    raise StopIteration
                i = self.i
                self.i += 1
                b = do(steps[i])
                if b is not None:
                    log(E("recv", n=len(b)))
                    return b

        def close(self):
            if not self.closed:
                self.closed = True
                log(E("rel"))

    class T:
        def execute_sync(self, request):
            log(E("w_head", ok=head_ok(request, scn)))
            rp = ReqParser(scn, log, it)
            if isinstance(request.content, (bytes, bytearray, memoryview)):
                data = bytes(request.content)
                c = COMPS.get(scn.get("send", ""))
                try:
                    log(E("w_msg", id=it.get(c.decompress(data) if c else data)))
                except Exception:
                    log(E("w_junk"))
                log(E("w_end"))
            else:
                lim = scn.get("read_reqs")
                n = 0
                if lim is None or lim > 0:
                    for c in request.content:
                        rp.feed(c)
                        n += 1
                        if lim is not None and n >= lim:
                            break
                    else:
                        rp.end()
            do(steps[0])
            log(E("head"))
            return SyncResponse(status=cfg["status"], headers=Headers(headers), content=Content(), trailers=tr)

    class FailingClose:
        """a response whose context manager fails on the way out"""

        def __init__(self, resp):
            self.resp = resp

        def __enter__(self):
            return self.resp.__enter__()

        def __exit__(self, *a):
            self.resp.__exit__(*a)
            log(E("fault", code="close"))
            raise RuntimeError("cannot close")

    class Http:
        """a SyncClient, whose responses fail to close"""

        def __init__(self):
            self.c = SyncClient(T())

        def __getattr__(self, name):
            return getattr(self.c, name)

        def stream(self, *a, **k):
            return FailingClose(self.c.stream(*a, **k))

    def call():
        client = ConnectClientSync(ADDR, http_client=Http() if scn.get("close_fail") else SyncClient(T()), **conf(scn))

        def reqs():
            for i, ln in enumerate(scn.get("reqs", [2])):
                m = Msg(payload(50 + i, ln))
                log(E("q_yield", id=it.get(m.data)))
                yield m

        def one():
            m = Msg(payload(50, scn.get("reqs", [2])[0]))
            log(E("q_yield", id=it.get(m.data)))
            return m

        kw = {"method": MI}
        if tmo >= 0:
            kw["timeout_ms"] = tmo
        try:
            if kind == "unary":
                r = client.execute_unary(request=one(), **kw)
                log(E("c_ret", id=it.get(r.data)))
            elif kind == "client":
                r = client.execute_client_stream(request=reqs(), **kw)
                log(E("c_ret", id=it.get(r.data)))
            else:
                s = (client.execute_server_stream(request=one(), **kw) if kind == "server" else
                     client.execute_bidi_stream(request=reqs(), **kw))
                stop = scn.get("take")
                n = 0
                while True:
                    if stop is not None and n >= stop:
                        log(E("c_stop"))
                        s.close()
                        break
                    try:
                        m = next(s)
                    except StopIteration:
                        log(E("c_end"))
                        break
                    n += 1
                    log(E("c_msg", id=it.get(m.data)))
        except Exception as e:
            KEPT.append(e)
            log_err(log, e, 0)

    old = time.monotonic
    time.monotonic = lambda: clock["t"]
    try:
        call()
    finally:
        time.monotonic = old
    gc.collect(0)
    log(E("end"))
    return {"cfg": cfg, "events": ev}


def run(scn):
    KEPT.clear()
    if scn["api"] != "async":
        return run_sync(scn)
    if not scn.get("backport"):
        return run_async(scn)
    # as under Python 3.10, whose asyncio has no timeouts of its own
    import connectrpc._client_async as mod
    old = getattr(mod, "asyncio_timeout_at", None)
    try:
        from connectrpc._asyncio_timeout import timeout_at
    except ImportError:
        old = None
    if old is None:
        return run_async(scn)
    mod.asyncio_timeout_at = timeout_at
    try:
        return run_async(scn)
    finally:
        mod.asyncio_timeout_at = old
