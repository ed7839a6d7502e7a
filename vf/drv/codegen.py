"""Definitions put through the real plugin, the result imported and used, each in a process of its own (Codegen.tla)."""
import asyncio
import inspect
import io
import json
import os
import re
import shutil
import sys
import tempfile
import traceback
import types

import protobuf.wkt
import protoc_gen_connectrpc
from google.protobuf import descriptor_pb2, descriptor_pool, empty_pb2, message_factory, wrappers_pb2  # noqa: F401
from google.protobuf.compiler import plugin_pb2
from grpc_tools import protoc
from protoc_gen_py import main as py_main
from pyqwest import Client, SyncClient

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.codec import proto_json_codec
from connectrpc.compat import google_protobuf_json_codec
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError
from connectrpc.protocol import ProtocolType
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication

from ..bridge import AsyncToAsgi, AsyncToWsgi, SyncToAsgi, SyncToWsgi
from ..vloop import run_virtual

INC = os.path.join(os.path.dirname(protoc.__file__), "_proto")
PT = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
WKT = {"google.protobuf.Empty": "google/protobuf/empty.proto", "google.protobuf.StringValue": "google/protobuf/wrappers.proto",
       "google.protobuf.BytesValue": "google/protobuf/wrappers.proto"}
BASE = {"ASGIApplication": ConnectASGIApplication, "WSGIApplication": ConnectWSGIApplication, "Client": ConnectClient, "ClientSync": ConnectClientSync}
ADDR = "http://h.example:81"


def E(ev, **kw):
    e = {"ev": ev, "f": 0, "s": 0, "m": 0, "out": "ok", "names": [], "name": "", "role": "", "path": "", "clocal": "", "local": "", "verb": "", "shape": "",
         "cinfo": [], "info": [], "tin": "", "tout": "", "sent": [], "got": [], "ret": [], "res": [], "code": "",
         "gets": [], "sinfo": [], "hdr": "", "tmo": False, "codec": "", "senc": "", "acc": []}
    e.update(kw)
    return e


# ---- definitions to text
def full(scn, ref):
    if ref[0] < 0:
        return ref[1]
    p = scn["files"][ref[0]]["pkg"]
    return (p + "." if p else "") + ref[1]


def text(scn, f):
    d = scn["files"][f]
    out = ['edition = "2023";' if d.get("ed") else 'syntax = "proto3";']
    if d["pkg"]:
        out.append("package %s;" % d["pkg"])
    imps = set()
    for s in d["services"]:
        for m in s["methods"]:
            for r in (m["in"], m["out"]):
                if r[0] < 0:
                    imps.add(WKT[r[1]])
                elif r[0] != f:
                    imps.add(scn["files"][r[0]]["stem"] + ".proto")
    out += ['import "%s";' % i for i in sorted(imps)]
    tree = {}
    for n in d["msgs"]:
        t = tree
        for p in n.split("."):
            t = t.setdefault(p, {})

    def msg(n, sub):
        return "message %s { string v = 1; %s }" % (n, " ".join(msg(k, v) for k, v in sub.items()))
    body = [msg(k, v) for k, v in tree.items()]
    for s in d["services"]:
        ms = []
        for m in s["methods"]:
            ms.append("  rpc %s(%s.%s) returns (%s.%s) {%s}" % (
                m["name"], "stream " if m["kind"] in ("client", "bidi") else "", full(scn, m["in"]),
                "stream " if m["kind"] in ("server", "bidi") else "", full(scn, m["out"]),
                "" if m["idem"] == "UNKNOWN" else " option idempotency_level = %s; " % m["idem"]))
        body.append("service %s {\n%s\n}" % (s["name"], "\n".join(ms)))
    if d.get("first"):
        body.reverse()
    return "\n".join(out + body) + "\n"


def plug(main, req):
    class I:
        buffer = io.BytesIO(req)

    class O:
        buffer = io.BytesIO()
    old = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = I, O, ["plugin"]
    try:
        main()
    finally:
        sys.stdin, sys.stdout, sys.argv = old
    r = plugin_pb2.CodeGeneratorResponse.FromString(O.buffer.getvalue())
    if r.error:
        raise RuntimeError(r.error)
    return {f.name: f.content for f in r.file}


class Unusable(Exception):
    pass


class Gen:
    def __init__(self, scn, d):
        self.scn, self.ev = scn, []
        self.src, self.root = d + "/src", d + "/genpkg"
        self.dir = d
        for i in range(len(scn["files"])):
            p = os.path.join(self.src, self.proto(i))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text(scn, i))
        self.param = ",".join(([] if scn["pb"] == "py" and not scn.get("explicit") else ["protobuf=" + scn["pb"]]) + (["io=" + scn["io"]] if scn["io"] else []))

    def proto(self, i):
        return self.scn["files"][i]["stem"] + ".proto"

    def cfg(self):
        s = self.scn
        fs = []
        for i, d in enumerate(s["files"]):
            svcs = []
            for v in d["services"]:
                svcs.append({"name": v["name"], "full": (d["pkg"] + "." if d["pkg"] else "") + v["name"],
                             "methods": [{"name": m["name"], "kind": m["kind"], "idem": m["idem"], "input": full(s, m["in"]), "output": full(s, m["out"])} for m in v["methods"]]})
            fs.append({"stem": d["stem"], "gen": d["gen"], "services": svcs,
                       "plain": all(re.fullmatch("[a-z][a-z0-9]*", p) and p not in KW for p in d["stem"].split("/"))})
        return {"io": s["io"], "files": fs, "plan": [{k: p[k] for k in ("f", "s", "m", "get", "impl", "opt")} for p in s["plan"]]}

    # ---- generating
    def generate(self):
        names = [self.proto(i) for i in range(len(self.scn["files"]))]
        rc = protoc.main(["protoc", "-I" + self.src, "-I" + INC, "--include_imports", "--descriptor_set_out=" + self.dir + "/set.bin", *names])
        if rc:
            raise Unusable("protoc rejects the definitions:\n" + "\n".join(text(self.scn, i) for i in range(len(names))))
        with open(self.dir + "/set.bin", "rb") as f:
            self.set = descriptor_pb2.FileDescriptorSet.FromString(f.read())
        want = [self.proto(i) for i, d in enumerate(self.scn["files"]) if d["gen"]]
        try:
            out = self.connect(want)
        except Exception as e:
            self.ev.append(E("gen", out=type(e).__name__ + ": " + str(e)[:200]))
            return None
        self.ev.append(E("gen", names=sorted(out)))
        mods = {}
        for i, d in enumerate(self.scn["files"]):
            if d["gen"] and d["services"]:
                n = d["stem"] + "_connect.py"
                if n not in out:
                    one = self.connect([self.proto(i)])
                    n = next(iter(one), None)
                mods[i] = n
        for n, c in out.items():
            self.put(n, c)
        if self.scn["pb"] == "google":
            if protoc.main(["protoc", "-I" + self.src, "-I" + INC, "--python_out=" + self.root, *names]):
                raise Unusable("protoc python_out")
        else:
            for n, c in self.run_plugin(py_main, names, "").items():
                self.put(n, c)
        return mods

    def run_plugin(self, main, want, param):
        return plug(main, plugin_pb2.CodeGeneratorRequest(file_to_generate=want, parameter=param, proto_file=self.set.file).SerializeToString())

    def connect(self, want):
        return self.run_plugin(protoc_gen_connectrpc.main, want, self.param)

    def put(self, n, c):
        p = os.path.join(self.root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(c)

    # ---- messages, found without the generated code
    def cls(self, name):
        if self.scn["pb"] == "google":
            return message_factory.GetMessageClass(descriptor_pool.Default().FindMessageTypeByName(name))
        if name.startswith("google.protobuf."):
            return getattr(protobuf.wkt, name.rsplit(".", 1)[1])
        if name not in self.classes:
            def walk(c):
                for x in list(vars(c).values()):
                    if isinstance(x, type) and hasattr(x, "desc"):
                        try:
                            n = x.desc().type_name
                        except AttributeError:
                            continue
                        if n not in self.classes:
                            self.classes[n] = x
                            walk(x)
            for k, m in list(sys.modules.items()):
                if m is not None and isinstance(m, types.ModuleType) and (getattr(m, "__file__", None) or "").startswith(self.root):
                    walk(m)
        return self.classes[name]

    classes = {}

    def tname(self, c):
        try:
            return c.DESCRIPTOR.full_name if self.scn["pb"] == "google" else c.desc().type_name
        except Exception:
            return "?" + repr(c)

    def make(self, name, v):
        c = self.cls(name)
        if name == "google.protobuf.Empty":
            return c()
        if name.startswith("google.protobuf."):
            return c(value=v.encode() if name.endswith("BytesValue") else v)
        return c(v=v)

    def val(self, m):
        try:
            v = m.v if hasattr(m, "v") else m.value if hasattr(m, "value") else "-"
            return v.decode() if isinstance(v, bytes) else v
        except Exception as e:
            return "?" + type(e).__name__

    def info(self, m):
        return [m.name, m.service_name, self.tname(m.input), self.tname(m.output), m.idempotency_level.name]

    # ---- what the modules offer
    def load(self, mods):
        import importlib
        sys.path[:0] = [self.dir, self.root]
        self.role = {}
        good = True
        loaded = {}
        for i, n in mods.items():
            if n is None:
                continue
            name = n[:-3].replace("/", ".")
            if self.scn["pb"] != "google" or "/" not in n:
                name = "genpkg." + name
            try:
                loaded[i] = importlib.import_module(name)
                self.ev.append(E("import", f=i + 1))
            except Exception as e:
                self.ev.append(E("import", f=i + 1, out=type(e).__name__ + ": " + str(e)[:200]))
                good = False
        for i, m in loaded.items():
            try:
                self.classes_of(i, m)
            except Exception as e:
                self.ev.append(E("import", f=i + 1, out="unusable: " + type(e).__name__ + ": " + str(e)[:200]))
                good = False
        return good

    def classes_of(self, i, mod):
        d = self.scn["files"][i]
        svcs = {(d["pkg"] + "." if d["pkg"] else "") + s["name"]: k for k, s in enumerate(d["services"])}
        own = [(n, c) for n, c in vars(mod).items() if isinstance(c, type) and c.__module__ == mod.__name__]
        left = []
        for n, c in own:
            r = next((r for r, b in BASE.items() if issubclass(c, b)), None)
            if r in ("ASGIApplication", "WSGIApplication"):
                try:
                    path = c(Stub()).path
                except Exception as e:
                    path = "?" + type(e).__name__ + ": " + str(e)[:100]
                k = svcs.get(path[1:], -1)
                if k < 0:
                    k = next((j for j, s in enumerate(d["services"]) if n.rstrip("_") == s["name"] + r), -1)
                self.found(i, k, r, n, c, path)
                an = inspect.signature(c.__init__).parameters["service"].annotation
                pn = re.match(r"\w*", an if isinstance(an, str) else getattr(an, "__name__", "")).group()
                if k >= 0 and pn in vars(mod):
                    self.found(i, k, "" if r == "ASGIApplication" else "Sync", pn, vars(mod)[pn])
            elif r:
                fns = self.functions(c, r)
                ks = {svcs.get(s, -1) for s, _ in fns.values()}
                if len(ks) == 1:
                    self.found(i, ks.pop(), r, n, c, fns=fns)
                elif ks:
                    self.found(i, -1, r, n, c)
                else:
                    left.append((n, r, c))
        # without functions only the name tells whose class it is
        empty = [j for j, s in enumerate(d["services"]) if not s["methods"]]
        for fit in (lambda n, w: n == w, lambda n, w: n.rstrip("_") == w.rstrip("_"), lambda n, w: True):
            for x in list(left):
                k = next((j for j in empty if (i, j, x[1]) not in self.role and fit(x[0], d["services"][j]["name"] + x[1])), -1)
                if k >= 0:
                    left.remove(x)
                    self.found(i, k, x[1], x[0], x[2], fns={})
        for n, r, c in left:
            self.found(i, -1, r, n, c)

    def found(self, i, k, r, n, c, path="", fns=None):
        gets = [fns[x][1] for x in fns or {} if "use_get" in inspect.signature(getattr(c, x)).parameters]
        self.ev.append(E("class", f=i + 1, s=k + 1, role=r, name=n, path=path, gets=gets))
        self.role.setdefault((i, k, r), (c, fns))

    def functions(self, c, r):
        """public function -> (service, method), seen by an interceptor that stops the call"""
        seen = []

        class Stop(Exception):
            pass

        class Spy:
            async def on_start(self, ctx):
                self.on_start_sync(ctx)

            def on_start_sync(self, ctx):
                seen.append((ctx.method.service_name, ctx.method.name))
                raise ConnectError(Code.ABORTED, "stop")

            async def on_end(self, t, ctx, error):
                pass

            def on_end_sync(self, t, ctx, error):
                pass
        out = {}
        client = c(ADDR, interceptors=[Spy()], http_client=Client(Nowhere()) if r == "Client" else SyncClient(Nowhere()))
        for n, f in list(vars(c).items()):
            if not inspect.isfunction(f) or n == "__init__":
                continue
            seen.clear()

            async def call():
                x = getattr(client, n)(None)
                if inspect.isawaitable(x):
                    x = await x
                async for _ in x:
                    pass
            try:
                if r == "Client":
                    run_virtual(call)
                else:
                    for _ in getattr(client, n)(None):
                        pass
            except Exception:
                pass
            if len(seen) == 1:
                out[n] = seen[0]
        return out

    # ---- one call
    def call(self, p):
        s = self.scn
        i, j = p["f"] - 1, p["s"] - 1
        sv = s["files"][i]["services"][j]
        m = sv["methods"][p["m"] - 1]
        fulln = (s["files"][i]["pkg"] + "." if s["files"][i]["pkg"] else "") + sv["name"]
        acl = p["cli"] == "async"
        e = E("call", f=p["f"], s=p["s"], m=p["m"])
        self.ev.append(e)
        ccls, fns = self.role[i, j, "Client" if acl else "ClientSync"]
        e["clocal"] = next((n for n, x in (fns or {}).items() if x == (fulln, m["name"])), "")
        if not e["clocal"]:
            return
        cnt = [0]

        def wire(request, status, hs):
            cnt[0] += 1
            path, _, q = request.url.removeprefix(ADDR).partition("?")
            e["path"], e["verb"] = path if cnt[0] == 1 else "twice", request.method
            ct = request.headers.get("content-type") or ("unary" if "connect=v1" in q else "")
            e["shape"] = ("unary" if m["kind"] == "unary" else "stream") if p["proto"] != "connect" else "stream" if ct.startswith("application/connect+") else "unary" \
                if ct == "unary" or ct.startswith("application/") else "?" + ct
            query = dict(x.split("=", 1) for x in q.split("&") if "=" in x)
            e["codec"] = query.get("encoding") or re.split("[+/]", ct)[-1]
            h = {"connect": "" if e["shape"] == "unary" else "connect-"}.get(p["proto"], "grpc-")
            e["senc"] = query.get("compression") or request.headers.get("grpc-encoding" if h == "grpc-" else h + "content-encoding") or "identity"
            e["acc"] = [x.strip() for x in (request.headers.get(h + "accept-encoding") or "").split(",")]
        svc = self.service(p, m, e, i, j)
        asgi = p["srv"] == "asgi"
        # an application of this kind also takes a generator of its service, opened when it starts up
        gen = asgi and p["opt"] == "sgen"

        async def opened():
            yield svc
        try:
            app = self.role[i, j, "ASGIApplication" if asgi else "WSGIApplication"][0](opened() if gen else svc, **self.options(p, e))
            if gen:
                startup(app)
        except Exception as x:
            e["code"] = "application: " + type(x).__name__
            return
        g = self

        class Spy:
            async def on_start(self, ctx):
                self.on_start_sync(ctx)

            def on_start_sync(self, ctx):
                e["cinfo"] = g.info(ctx.method)

            async def on_end(self, t, ctx, error):
                pass

            def on_end_sync(self, t, ctx, error):
                pass
        cin = m["kind"] in ("client", "bidi")
        reqs = [self.make(full(s, m["in"]), "q%d" % k) for k in range(p["nin"] if cin else 1)]
        e["sent"] = [self.val(x) for x in reqs]
        kw = {"use_get": True} if p["get"] else {}
        kw |= {"headers": {"headers": {"x-vf": "v"}}, "timeout": {"timeout_ms": 9000}, "both": {"headers": {"x-vf": "v"}, "timeout_ms": 9000}}.get(p["opt"], {})
        out = []
        strm = m["kind"] in ("server", "bidi")

        def got(x):
            out.append(self.val(x))
            t = self.tname(type(x))
            e["tout"] = t if e["tout"] in ("", t) else "mixed"
        conf = {"protocol": PT[p["proto"]], "interceptors": [Spy()]}
        conf |= {"ctimeout": {"timeout_ms": 9000}, "climit": {"read_max_bytes": 50}, "ccodec": {"codec": self.json()}, "csend": {"send_compression": ZstdCompression()},
                 "cplain": {"send_compression": None}, "caccept": {"accept_compression": [ZstdCompression()]}}.get(p["opt"], {})
        try:
            if acl:
                tr = (AsyncToAsgi if asgi else AsyncToWsgi)(app, None, wire)
                client = ccls(ADDR, http_client=Client(tr), **conf)

                async def go():
                    async def feed():
                        for x in reqs:
                            yield x
                    r = getattr(client, e["clocal"])(feed() if cin else reqs[0], **kw)
                    if strm:
                        async for x in r:
                            got(x)
                    else:
                        got(await r)
                    await client.close()
                    if asgi:
                        await tr.settle()
                err = []

                async def wrapped():
                    try:
                        await go()
                    except Exception as x:
                        err.append(x)
                _, dead = run_virtual(wrapped)
                if err:
                    raise err[0]
                if dead:
                    raise RuntimeError(dead)
            else:
                tr = (SyncToAsgi if asgi else SyncToWsgi)(app, None, wire)
                client = ccls(ADDR, http_client=SyncClient(tr), **conf)
                r = getattr(client, e["clocal"])(iter(reqs) if cin else reqs[0], **kw)
                if strm:
                    for x in r:
                        got(x)
                else:
                    got(r)
                client.close()
            e["code"] = "ok"
        except ConnectError as x:
            e["code"] = x.code.value
        except Exception as x:
            e["code"] = type(x).__name__ + ": " + str(x)[:100]
        e["res"] = out
        if not strm and e["code"] == "ok" and len(out) != 1:
            e["code"] = "no response"
        if strm and p["nout"] == 0 and not out:
            e["tout"] = full(s, m["out"])
        if cin and p["nin"] == 0 and e["local"] and not e["got"]:
            e["tin"] = full(s, m["in"])

    def json(self):
        return google_protobuf_json_codec() if self.scn["pb"] == "google" else proto_json_codec()

    def options(self, p, e):
        """what the application is given besides the implementation"""
        g = self

        class Spy:
            async def on_start(self, ctx):
                self.on_start_sync(ctx)

            def on_start_sync(self, ctx):
                e["sinfo"] = g.info(ctx.method)

            async def on_end(self, t, ctx, error):
                pass

            def on_end_sync(self, t, ctx, error):
                pass
        return {"interceptors": [Spy()]} | {"slimit": {"read_max_bytes": 1}, "szero": {"read_max_bytes": 0}, "scodecs": {"codecs": [self.json()]}, "snone": {"codecs": []}, "scomp": {"compressions": []}, "csend": {"compressions": [ZstdCompression()]}}.get(p["opt"], {})

    def service(self, p, m, e, i, j):
        g, s = self, self.scn
        asgi = p["srv"] == "asgi"
        proto = self.role[i, j, "" if asgi else "Sync"][0]
        strm = m["kind"] in ("server", "bidi")
        rets = [self.make(full(s, m["out"]), "r%d" % k + ("x" * 60 if p["opt"] == "climit" else "")) for k in range(p["nout"] if strm else 1)]
        e["ret"] = [self.val(x) for x in rets]

        def enter(n, ctx):
            e["local"] = n if not e["local"] else "twice"
            e["info"] = g.info(ctx.method)
            e["hdr"] = ctx.request_headers.get("x-vf", "")
            e["tmo"] = ctx.timeout_ms is not None

        def take(x):
            e["got"].append(g.val(x))
            t = g.tname(type(x))
            e["tin"] = t if e["tin"] in ("", t) else "mixed"
        cin = m["kind"] in ("client", "bidi")

        def make(n):
            async def fn(self, request, ctx):
                enter(n, ctx)
                if cin:
                    async for x in request:
                        take(x)
                else:
                    take(request)
                return rets[0]

            async def gen(self, request, ctx):
                enter(n, ctx)
                if cin:
                    async for x in request:
                        take(x)
                else:
                    take(request)
                for x in rets:
                    yield x

            def sfn(self, request, ctx):
                enter(n, ctx)
                for x in (request if cin else [request]):
                    take(x)
                return rets[0]

            def sgen(self, request, ctx):
                enter(n, ctx)
                for x in (request if cin else [request]):
                    take(x)
                yield from rets
            return (gen if strm else fn) if asgi else (sgen if strm else sfn)
        names = [n for n, f in vars(proto).items() if inspect.isfunction(f) and not n.startswith("__") and n != "_no_init_or_replace_init"]
        return type("Impl", (proto,), {n: make(n) for n in names if p["impl"] or n != e["clocal"]})()

    def run(self):
        mods = self.generate()
        if mods is None or not self.load(mods):
            return
        need = {(p["f"] - 1, p["s"] - 1, r) for p in self.scn["plan"]
                for r in (("", "ASGIApplication") if p["srv"] == "asgi" else ("Sync", "WSGIApplication")) + (("Client",) if p["cli"] == "async" else ("ClientSync",))}
        if need <= set(self.role):
            for p in self.scn["plan"]:
                self.call(p)


KW = {"as", "class", "import", "from", "in", "is", "if", "for", "def", "del", "or", "and", "not", "try", "with", "else", "elif", "while", "pass", "raise", "return",
      "lambda", "global", "nonlocal", "yield", "async", "await", "assert", "break", "continue", "except", "finally"}


class Stub:
    """stands for a service of any kind while only the mount path is asked for"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda request, ctx: None


class Pause:
    def __await__(self):
        yield


LIFE = []


def startup(app):
    """the application's lifespan up to the end of its startup"""
    n = [0]

    async def receive():
        n[0] += 1
        while n[0] > 1:
            await Pause()
        return {"type": "lifespan.startup"}

    async def send(msg):
        if msg["type"] != "lifespan.startup.complete":
            raise RuntimeError(msg["type"])
    life = app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
    life.send(None)
    LIFE.append(life)


class Nowhere:
    async def execute(self, request):
        raise RuntimeError("no call expected")

    def execute_sync(self, request):
        raise RuntimeError("no call expected")


def run(scn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        d = None
        try:
            os.close(r)
            d = tempfile.mkdtemp(prefix="vf-cg-")
            g = None
            try:
                g = Gen(scn, d)
                g.run()
                res = {"cfg": g.cfg(), "events": g.ev}
            except BaseException:
                res = {"cfg": g.cfg() if g else {}, "events": g.ev if g else [], "broken": traceback.format_exc()}
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    return json.loads(data)
