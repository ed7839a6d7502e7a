"""Drives one enveloped RPC through the real ASGI / WSGI application (RpcServer.tla)."""
import asyncio
import contextlib

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync

from ..toys import Intern, Msg, RawCodec, ToyComp, payload
from ..vloop import NOISE, run_virtual
from ..wire import ACC_H, CTYPE, ENC_H, E, ResponseParser, env, grpc_term, skv

PATH = "/svc.S/M"


class App(ConnectASGIApplication):
    @property
    def path(self):
        return "/svc.S"


class WApp(ConnectWSGIApplication):
    @property
    def path(self):
        return "/svc.S"


TOY = ToyComp("toy")
TOY2 = ToyComp("toy2")


def plan(scn):
    """Body bytes and cfg from the symbolic scenario."""
    it = Intern()
    comp = scn.get("comp", "identity")
    neg = comp in ("toy", "toy2")
    c = {"toy": TOY, "toy2": TOY2}.get(comp, TOY)
    body = b""
    frames = []
    for f in scn["frames"]:
        pl = payload(f["id"], f["len"])
        bad = f.get("bad", "")
        if bad == "decode":
            pl = b"\xffBAD" + pl
        if f["flag"]:
            if f.get("bomb"):
                pl = b"x" * f["bomb"]
                w = c.bomb(f["bomb"])
            elif bad == "decomp":
                w = b"garbage" + pl
            elif neg:
                w = c.compress(pl)
            else:
                w = pl
        else:
            w = pl
        frames.append({"id": it.put(pl), "wire": len(w), "flag": 1 if f["flag"] else 0, "dec": len(pl), "bad": bad})
        body += env(1 if f["flag"] else 0, w)
    tail = scn.get("tail", 0)
    if tail:
        body += env(0, payload(77, max(tail, 6)))[:tail]
    acc = scn.get("accept", "")
    enc = "identity"
    for a in acc.split(","):
        if a.strip() in ("toy", "toy2", "identity"):
            enc = a.strip()
            break
    for s in scn["script"]:
        if s[0] in ("yield", "ret"):
            it.put(payload(s[1], s[2]))
    cfg = {"api": scn["api"], "proto": scn["proto"], "kind": scn["kind"], "frames": frames, "tail": tail, "neg": neg,
           "unsupp": scn["proto"] != "connect" and comp not in ("identity", "toy", "toy2"),
           "limit": scn.get("limit", -1), "ctype": CTYPE[scn["proto"]] + "raw", "enc": enc, "closing": False}
    return body, cfg, it


def pieces(body, cuts):
    cuts = sorted(min(len(body), c) for c in cuts)
    out, last = [], 0
    for c in cuts:
        out.append(body[last:c])
        last = c
    out.append(body[last:])
    return out


class H:
    """Shared handler bookkeeping."""

    def __init__(self, log, it):
        self.log, self.it = log, it
        self.hdr, self.trl = [], []

    def meta(self, ctx, op):
        if op[0] == "hdr":
            ctx.response_headers.add(op[1], op[2])
            self.hdr.append((op[1], op[2]))
            self.log(E("h_meta", ok=True, kv=skv(self.hdr)))
        else:
            ctx.response_trailers.add(op[1], op[2])
            self.trl.append((op[1], op[2]))
            self.log(E("h_meta", ok=False, kv=skv(self.trl)))

    def raised(self, e):
        if isinstance(e, ConnectError):
            self.log(E("h_raise", code=e.code.value, msg=e.message))
        elif isinstance(e, Stop):
            self.log(E("h_raise", code="base", msg=str(e)))
        else:
            self.log(E("h_raise", code="raw", msg=str(e)))

    def rerr(self, e):
        self.log(E("h_rerr", code=e.code.value if isinstance(e, ConnectError) else
                   ("canceled" if isinstance(e, asyncio.CancelledError) else "raw")))

    def do_raise(self, op):
        if op[0] == "raise":
            raise ConnectError(Code(op[1]), op[2])
        if op[0] == "baseraise":
            raise Stop(op[1])
        raise {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError,
               "TimeoutError": TimeoutError, "OSError": OSError,
               "StopError": ArithmeticError}[op[1]](op[2])


class Wrong(Exception):
    pass


class Stop(BaseException):
    """What SystemExit is to a process: not an Exception, and no cancellation either."""


# ------------------------------------------------------------------ async

class AIterObj:
    """a response stream which is no generator: only closing it runs the handler's cleanup"""

    def __init__(self, g, keep):
        self.g = g
        keep.append(g)

    def __aiter__(self):
        return self

    def __anext__(self):
        return self.g.__anext__()

    async def aclose(self):
        await self.g.aclose()


class IterObj:
    def __init__(self, g, keep):
        self.g = g
        keep.append(g)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.g)

    def close(self):
        self.g.close()


def run_asgi(scn):
    body, cfg, it = plan(scn)
    ev = []
    log = ev.append
    ctl = {}

    def parser():
        return ResponseParser(scn["proto"], log, it, {"toy": TOY, "toy2": TOY2}, "identity")

    async def main():
        h = H(log, it)
        script = scn["script"]
        disc_evt = asyncio.Event()

        async def run_ops(reqit, ctx):
            for op in script:
                k = op[0]
                if k in ("hdr", "trl"):
                    h.meta(ctx, op)
                elif k in ("raise", "rawraise", "baseraise"):
                    h.do_raise(op)
                elif k in ("read", "readall", "readall_catch"):
                    while True:
                        log(E("h_pull"))
                        try:
                            m = await reqit.__anext__()
                        except StopAsyncIteration:
                            log(E("h_eof"))
                            break
                        except (Exception, asyncio.CancelledError) as e:
                            h.rerr(e)
                            if k == "readall_catch" and not isinstance(e, asyncio.CancelledError):
                                break
                            raise
                        log(E("h_msg", id=it.get(m.data)))
                        if k == "read":
                            break
                elif k == "sleep":
                    for _ in range(op[1]):
                        await asyncio.sleep(0)
                elif k == "wait":
                    await asyncio.sleep(op[1])
                elif k == "sig":
                    disc_evt.set()
                    for _ in range(6):
                        await asyncio.sleep(0)
                elif k == "cancel":
                    log(E("cancel"))
                    ctl["task"].cancel()
                    await asyncio.sleep(0)
                elif k == "echo":
                    while True:
                        log(E("h_pull"))
                        try:
                            m = await reqit.__anext__()
                        except StopAsyncIteration:
                            log(E("h_eof"))
                            break
                        except (Exception, asyncio.CancelledError) as e:
                            h.rerr(e)
                            raise
                        i = it.get(m.data)
                        log(E("h_msg", id=i))
                        yield ("yield", m, i)
                elif k == "yield":
                    m = Msg(payload(op[1], op[2]))
                    yield ("yield", m, it.get(m.data))
                elif k == "ret":
                    m = Msg(payload(op[1], op[2]))
                    yield ("ret", m, it.get(m.data))

        async def gen(request, ctx):
            log(E("h_start", id=it.get(request.data) if isinstance(request, Msg) else 0))
            why = "normal"
            try:
                async with contextlib.aclosing(run_ops(request, ctx)) as ops:
                    async for what, m, i in ops:
                        log(E("h_yield", id=i))
                        yield m
                        log(E("h_resume"))
                log(E("h_done"))
            except GeneratorExit:
                why = "closed"
                raise
            except asyncio.CancelledError:
                why = "cancelled"
                raise
            except (Exception, Stop) as e:
                why = "error"
                h.raised(e)
                raise
            finally:
                if scn.get("slow_exit"):
                    await asyncio.sleep(0)
                log(E("h_exit", code=why))

        async def fn(request, ctx):
            log(E("h_start", id=it.get(request.data) if isinstance(request, Msg) else 0))
            why = "normal"
            try:
                async with contextlib.aclosing(run_ops(request, ctx)) as ops:
                    async for what, m, i in ops:
                        log(E("h_ret", id=i))
                        return m
                raise RuntimeError("script without return")
            except asyncio.CancelledError:
                why = "cancelled"
                raise
            except (Exception, Stop) as e:
                why = "error"
                h.raised(e)
                raise
            finally:
                log(E("h_exit", code=why))

        keep = []
        gfn = (lambda r, c: AIterObj(gen(r, c), keep)) if scn.get("obj") else gen
        mi = MethodInfo(name="M", service_name="svc.S", input=Msg, output=Msg,
                        idempotency_level=IdempotencyLevel.UNKNOWN)
        kind = scn["kind"]
        ep = {"unary": lambda: Endpoint.unary(mi, fn), "client": lambda: Endpoint.client_stream(mi, fn),
              "server": lambda: Endpoint.server_stream(mi, gfn), "bidi": lambda: Endpoint.bidi_stream(mi, gfn)}[kind]()
        lim = scn.get("limit", -1)
        app = App(service=object(), endpoints=lambda s: {PATH: ep}, codecs=[RawCodec()],
                  compressions=[TOY, TOY2], read_max_bytes=None if lim < 0 else lim)
        proto = scn["proto"]
        headers = [(b"content-type", (CTYPE[proto] + "raw").encode())]
        if scn.get("comp", "identity") != "identity" or scn.get("explicit_identity"):
            headers.append((ENC_H[proto].encode(), scn.get("comp", "identity").encode()))
        if scn.get("accept"):
            headers.append((ACC_H[proto].encode(), scn["accept"].encode()))
        scope = {"type": "http", "method": "POST", "path": PATH, "root_path": "", "headers": headers,
                 "query_string": b"", "client": ("9.9.9.9", 1), "http_version": "2",
                 "extensions": {"http.response.trailers": {}}}
        ps = pieces(body, scn.get("cuts", []))
        items = [("c", p) for p in ps]
        if scn.get("sep_end"):
            items.append(("c", b""))
        d = scn.get("disc_at")
        if d is not None:
            items = items[:d] + [("d", b"")]
        x = scn.get("cancel_at")
        if x is not None:
            items = items[:x] + [("x", b"")]
        st = {"i": 0, "over": False}

        async def receive():
            if scn.get("idle"):
                for _ in range(12):
                    await asyncio.sleep(0)
                log(E("idle"))
            i = st["i"]
            if i < len(items):
                st["i"] += 1
                k, p = items[i]
                if k == "c":
                    last = i == len(items) - 1
                    log(E("recv", n=len(p), ok=not last))
                    if last:
                        st["over"] = True
                    r = {"type": "http.request", "body": p, "more_body": not last}
                    if scn.get("sparse") and last:
                        del r["more_body"]
                        if not p:
                            del r["body"]
                    return r
                if k == "d":
                    log(E("disc"))
                    return {"type": "http.disconnect"}
                log(E("cancel"))
                ctl["task"].cancel()
                await asyncio.sleep(0)
                await asyncio.Event().wait()
            await disc_evt.wait()
            log(E("disc"))
            return {"type": "http.disconnect"}

        ps_ = parser()
        sent = {"n": 0}

        async def send(m):
            sent["n"] += 1
            if scn.get("send_sleep"):
                for _ in range(scn["send_sleep"]):
                    await asyncio.sleep(0)
            if scn.get("send_fail") == sent["n"]:
                log(E("sendfail"))
                raise OSError("client gone")
            if scn.get("send_cancel") == sent["n"]:
                log(E("cancel"))
                ctl["task"].cancel()
                await asyncio.sleep(0)
            t = m["type"]
            if t == "http.response.start":
                hs = [(k.decode("latin1"), v.decode("latin1")) for k, v in m.get("headers", [])]
                ct = [v for k, v in hs if k.lower() == "content-type"]
                enc = [v for k, v in hs if k.lower() == ENC_H[proto]]
                user = [(k, v) for k, v in hs if k.lower() not in ("content-type", ENC_H[proto])]
                if len(ct) > 1 or len(enc) > 1:
                    log(E("s_junk"))
                log(E("s_head", n=m["status"], code=ct[0] if ct else "", msg=enc[0] if enc else "identity",
                      kv=skv(user)))
                ps_.set_enc(enc[0] if enc else "identity")
                ctl["trl"] = m.get("trailers", False)
            elif t == "http.response.body":
                ps_.feed(m.get("body", b""))
                if not m.get("more_body", False):
                    ps_.finish()
                    log(E("s_close"))
            elif t == "http.response.trailers":
                tr = grpc_term([(k.decode(), v.decode()) for k, v in m.get("headers", [])])
                if tr is None or not ctl.get("trl"):
                    log(E("s_junk"))
                else:
                    log(E("s_term", ok=tr[0], code=tr[1], msg=tr[2], kv=skv(tr[3])))
            else:
                log(E("s_junk"))

        left = []

        async def call():
            try:
                await app(scope, receive, send)
                # the application is over: nothing it started may still be running
                # (but for the closing of collected generators, which the loop itself schedules)
                left.extend(t for t in asyncio.all_tasks() if t not in base and t is not ctl["task"] and not t.done()
                            and asyncio.iscoroutine(t.get_coro()) and hasattr(t.get_coro(), "cr_code"))
                return "return"
            except asyncio.CancelledError:
                return "raise:Cancelled"
            except (Exception, Stop) as e:
                return "raise:" + type(e).__name__

        base = set(asyncio.all_tasks())
        task = asyncio.ensure_future(call())
        ctl["task"] = task
        res = await task
        end = E("app_end", code=res)
        log(end)
        for _ in range(8):
            await asyncio.sleep(0)
        end["n"] = len(set(left) | {t for t in asyncio.all_tasks() if t not in base and not t.done()})
        # anything still happening afterwards is visible as activity after the end
        for _ in range(3):
            await asyncio.sleep(0)

    _, err = run_virtual(main)
    if err and (not ev or ev[-1]["ev"] != "app_end"):
        ev.append(E("deadlock", msg=err))
    if NOISE:
        ev.insert(next((i for i, e in enumerate(ev) if e["ev"] == "app_end"), len(ev)), E("noise", code=NOISE[0]))
    while ev and ev[-1]["ev"] in ("h_exit",) and any(e["ev"] == "app_end" for e in ev):
        break
    return {"cfg": cfg, "events": ev}


# ------------------------------------------------------------------ sync

class Input:
    """wsgi.input returning at most the next piece per read."""

    def __init__(self, ps, log, idle, over_read_guard=None):
        self.ps, self.log, self.idle = [p for p in ps], log, idle
        self.done = False

    def read(self, n=-1):
        if self.idle:
            self.log(E("idle"))
        while self.ps and not self.ps[0]:
            self.ps.pop(0)
        if not self.ps:
            if not self.done:
                self.done = True
                self.log(E("recv", n=0, ok=False))
            return b""
        p = self.ps[0]
        if n is not None and 0 <= n < len(p):
            r, self.ps[0] = p[:n], p[n:]
        else:
            r = self.ps.pop(0)
        self.log(E("recv", n=len(r), ok=True))
        return r


def run_wsgi(scn):
    body, cfg, it = plan(scn)
    ev = []
    log = ev.append
    h = H(log, it)
    proto = scn["proto"]
    ps_ = ResponseParser(proto, log, it, {"toy": TOY, "toy2": TOY2}, "identity")

    def run_ops(reqit, ctx):
        for op in scn["script"]:
            k = op[0]
            if k in ("hdr", "trl"):
                h.meta(ctx, op)
            elif k in ("raise", "rawraise", "baseraise"):
                h.do_raise(op)
            elif k in ("read", "readall", "readall_catch", "echo"):
                while True:
                    log(E("h_pull"))
                    try:
                        m = next(reqit)
                    except StopIteration:
                        log(E("h_eof"))
                        break
                    except Exception as e:
                        h.rerr(e)
                        if k == "readall_catch":
                            break
                        raise
                    i = it.get(m.data)
                    log(E("h_msg", id=i))
                    if k == "echo":
                        yield ("yield", m, i)
                    if k == "read":
                        break
            elif k in ("yield", "ret"):
                m = Msg(payload(op[1], op[2]))
                yield (k, m, it.get(m.data))

    def gen(request, ctx):
        log(E("h_start", id=it.get(request.data) if isinstance(request, Msg) else 0))
        why = "normal"
        try:
            for what, m, i in run_ops(request, ctx):
                log(E("h_yield", id=i))
                yield m
                log(E("h_resume"))
            log(E("h_done"))
        except GeneratorExit:
            why = "closed"
            raise
        except (Exception, Stop) as e:
            why = "error"
            h.raised(e)
            raise
        finally:
            log(E("h_exit", code=why))

    def fn(request, ctx):
        log(E("h_start", id=it.get(request.data) if isinstance(request, Msg) else 0))
        why = "normal"
        try:
            for what, m, i in run_ops(request, ctx):
                log(E("h_ret", id=i))
                return m
            raise RuntimeError("script without return")
        except (Exception, Stop) as e:
            why = "error"
            h.raised(e)
            raise
        finally:
            log(E("h_exit", code=why))

    keep = []
    gfn = (lambda r, c: IterObj(gen(r, c), keep)) if scn.get("obj") else gen
    mi = MethodInfo(name="M", service_name="svc.S", input=Msg, output=Msg, idempotency_level=IdempotencyLevel.UNKNOWN)
    ep = {"unary": lambda: EndpointSync.unary(method=mi, function=fn),
          "client": lambda: EndpointSync.client_stream(method=mi, function=fn),
          "server": lambda: EndpointSync.server_stream(method=mi, function=gfn),
          "bidi": lambda: EndpointSync.bidi_stream(method=mi, function=gfn)}[scn["kind"]]()
    lim = scn.get("limit", -1)
    app = WApp(endpoints={PATH: ep}, codecs=[RawCodec()], compressions=[TOY, TOY2],
               read_max_bytes=None if lim < 0 else lim)
    inp = Input(pieces(body, scn.get("cuts", [])), log, scn.get("idle"))

    class Err:
        def write(self, s):
            pass

        def flush(self):
            pass

    def send_trailers(hs):
        tr = grpc_term(list(hs))
        if tr is None:
            log(E("s_junk"))
        else:
            state["pending"] = E("s_term", ok=tr[0], code=tr[1], msg=tr[2], kv=skv(tr[3]))

    state = {"pending": None}
    environ = {"PATH_INFO": PATH, "SCRIPT_NAME": "", "REQUEST_METHOD": "POST", "CONTENT_TYPE": CTYPE[proto] + "raw",
               "wsgi.input": inp, "wsgi.errors": Err(), "wsgi.url_scheme": "http",
               "SERVER_PROTOCOL": scn.get("http", "HTTP/2"), "wsgi.ext.http.send_trailers": send_trailers,
               "QUERY_STRING": ""}
    if scn.get("clen"):
        environ["CONTENT_LENGTH"] = str(len(body))
    if scn.get("comp", "identity") != "identity" or scn.get("explicit_identity"):
        environ["HTTP_" + ENC_H[proto].upper().replace("-", "_")] = scn.get("comp", "identity")
    if scn.get("accept"):
        environ["HTTP_" + ACC_H[proto].upper().replace("-", "_")] = scn["accept"]

    def start_response(status, hs, exc_info=None):
        ct = [v for k, v in hs if k.lower() == "content-type"]
        enc = [v for k, v in hs if k.lower() == ENC_H[proto]]
        user = [(k, v) for k, v in hs if k.lower() not in ("content-type", ENC_H[proto])]
        if len(ct) > 1 or len(enc) > 1:
            log(E("s_junk"))
        log(E("s_head", n=int(status.split()[0]), code=ct[0] if ct else "", msg=enc[0] if enc else "identity",
              kv=skv(user)))
        ps_.set_enc(enc[0] if enc else "identity")
        return lambda b: None

    res = "return"
    try:
        out = app(environ, start_response)
        n = 0
        early = scn.get("close_after") == 0
        if early:
            log(E("wclose"))
        for chunk in [] if early else out:
            ps_.feed(chunk)
            n += 1
            if scn.get("close_after") == n:
                early = True
                log(E("wclose"))
                break
        if hasattr(out, "close"):
            out.close()
        if not early:
            ps_.finish()
            log(E("s_close"))
            if state["pending"]:
                log(state["pending"])
    except (Exception, Stop) as e:
        res = "raise:" + type(e).__name__
    log(E("app_end", code=res))
    return {"cfg": cfg, "events": ev}


def run(scn):
    return run_asgi(scn) if scn["api"] == "asgi" else run_wsgi(scn)
