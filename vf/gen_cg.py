KINDS = ("unary", "client", "server", "bidi")
IDEM = ("UNKNOWN", "IDEMPOTENT", "NO_SIDE_EFFECTS")
DIRS = ["", "acme/v1", "acme/v2", "a", "acme-corp/x", "acme/v1/sub"]
DIRS_PY = ["buf.build/x", "import/x", "a/class", "1st/x", "a_pb/x", "google/api"]
BASES = ["foo", "bar", "foo-bar", "foo.bar", "foo_pb", "foo_connect", "foo_pb2", "Foo", "service", "connectrpc", "typing"]
BASES_PY = ["import", "class", "1x", "None", "async"]
PKGS = ["", "acme.v1", "acme", "a.b.c", "x", "foo", "Foo", "import.class", "google.api"]
PLAIN = ["Foo", "FooService", "Greeter", "S", "HTTPServer", "a", "V1Api"]
CLASH = ["S", "SSync", "SClient", "SClientSync", "SASGIApplication", "SWSGIApplication", "SSyncClient", "S_", "SSync_", "SClient_"]
IMPORTED = ["Endpoint", "EndpointSync", "ConnectError", "Code", "Protocol", "MethodInfo", "IdempotencyLevel", "ConnectClient", "ConnectClientSync",
            "ConnectASGIApplication", "ConnectWSGIApplication", "TYPE_CHECKING", "Iterable", "Iterator", "AsyncIterator", "AsyncGenerator", "Mapping", "Codec",
            "Compression", "Interceptor", "InterceptorSync", "Headers", "RequestContext", "ProtocolType", "Client", "SyncClient", "GzipCompression",
            "google_protobuf_codecs", "annotations", "Empty", "StringValue"]
KWS = ["class", "class_", "import", "None", "True", "async", "lambda", "def_"]
BUILTIN = ["property", "super", "property_", "int", "str", "bool", "list", "dict", "type", "object", "svc", "self", "service", "request", "headers", "timeout_ms", "use_get",
           "codecs", "interceptors", "read_max_bytes", "compressions", "ctx", "_Foo", "isinstance", "print", "False_"]
MSGS = ["Req", "Res", "Request", "Response", "GetReq", "M1"]
MPLAIN = ["Get", "GetFoo", "getFoo", "get_foo", "Get_Foo", "GETFoo", "GetFOO", "GetHTTPInfo", "ListV1Things", "V2", "Do", "A", "AB", "ABc", "aB", "Get2Foo", "Get2F", "X509", "FooBarBazQux"]
MODD = ["Import", "import", "Class", "None", "none", "True", "Await", "Close", "close", "Close_", "ExecuteUnary", "ExecuteBidiStream", "execute_unary", "Execute_Server_Stream",
        "_codec", "_Get", "__Get", "__init__", "__Class__", "_address", "Path", "Self", "Request", "Svc", "Method", "Property", "Super", "Print", "Def_", "As", "From"]
OPTS = ["headers", "timeout", "ctimeout", "climit", "ccodec", "csend", "cplain", "caccept", "slimit", "scodecs", "scomp", "both", "szero", "sgen", "sgen", "snone"]


class Build:
    def __init__(self, rng, pb, io):
        self.rng, self.pb, self.io = rng, pb, io
        r = rng
        py = pb == "py"
        self.odd = r.random() < .5
        dirs = DIRS + (DIRS_PY if py else [])
        bases = BASES + (BASES_PY if py else [])
        if not self.odd:
            dirs, bases = DIRS[:4], BASES[:2]
        self.files = []
        stems = set()
        for i in range(3):
            # 0 has the services, 1 shares its package, 2 has another
            d = r.choice(dirs) if i != 1 else self.d0
            if i == 0:
                self.d0 = d
            while True:
                stem = (d + "/" if d else "") + r.choice(bases) + ("" if i == 0 else str(i))
                k = stem.lower().replace("-", "_").replace(".", "_")
                if k not in stems:
                    stems.add(k)
                    break
            self.files.append({"stem": stem, "pkg": "", "gen": i == 0 or r.random() < .5, "msgs": [], "services": [], "ed": r.random() < .15, "first": r.random() < .2})
        p = r.sample(PKGS, 2) if self.odd else r.sample(PKGS[:5], 2)
        self.files[0]["pkg"] = self.files[1]["pkg"] = p[0]
        self.files[2]["pkg"] = p[1]
        self.names = {0: set(), 2: set()}
        pool = PLAIN if not self.odd else PLAIN + CLASH * 2 + IMPORTED + KWS + BUILTIN
        n = r.choice([1, 1, 2, 3])
        self.svcs = []
        if self.odd and r.random() < .3:
            pool, n = CLASH, r.choice([2, 3, 4])
        for x in r.sample(sorted(set(pool)), n):
            if self.free(0, x):
                self.svcs.append({"name": x, "methods": []})
        if not self.svcs:
            self.free(0, "Zed")
            self.svcs.append({"name": "Zed", "methods": []})
        self.files[0]["services"] = self.svcs
        self.mpool = MSGS if not self.odd else MSGS + IMPORTED + BUILTIN + (KWS if py else []) + [s["name"] for s in self.svcs]
        # protobuf's own alias resolution confuses X_ with an aliased X of the same file
        self.mpool = [n for n in self.mpool if not n.endswith("_") and (py or n not in KWS)]
        self.made = {}

    def free(self, g, n):
        """may the name be defined in the package"""
        if n in self.names[g] or n == "_":
            return False
        pkg, other = self.files[g]["pkg"], self.files[2 - g]["pkg"]
        # a symbol must not also be a package
        for q in {self.files[0]["pkg"], self.files[2]["pkg"]}:
            if q and (q == (pkg + "." if pkg else "") + n or q.startswith((pkg + "." if pkg else "") + n + ".")):
                return False
        self.names[g].add(n)
        return True

    def ref(self, place):
        r = self.rng
        if place == "wkt":
            return [-1, r.choice(["google.protobuf.Empty", "google.protobuf.StringValue", "google.protobuf.BytesValue"])]
        f = {"own": 0, "nested": 0, "file": 1, "package": 2, "deep": r.choice([0, 1, 2])}[place]
        g = 2 if f == 2 else 0
        have = [n for n in self.files[f]["msgs"] if n.count(".") == {"nested": 1, "deep": 2}.get(place, 0)]
        if have and r.random() < .5:
            return [f, r.choice(have)]
        for _ in range(30):
            n = r.choice(self.mpool)
            if self.free(g, n):
                break
        else:
            n = "M%d" % len(self.names[g])
            self.names[g].add(n)
        self.files[f]["msgs"].append(n)
        deep = {"nested": 1, "deep": 2}.get(place, 0)
        for _ in range(deep):
            k = r.choice(self.mpool)
            n += "." + ("In" if k in n.split(".") or k == "v" else k)
            self.files[f]["msgs"].append(n)
        return [f, n]

    def add(self, name, kind, idem, x, y):
        for s in sorted(self.svcs, key=lambda s: len(s["methods"])):
            if all(m["name"] != name for m in s["methods"]):
                s["methods"].append({"name": name, "kind": kind, "idem": idem, "in": self.ref(x), "out": self.ref(y)})
                return True
        return False

    def done(self):
        r = self.rng
        plan = []
        cs = {"": ["async", "sync"], "async": ["async"], "sync": ["sync"]}[self.io]
        ss = {"": ["asgi", "wsgi"], "async": ["asgi"], "sync": ["wsgi"]}[self.io]
        for j, s in enumerate(self.svcs):
            for k, m in enumerate(s["methods"]):
                for c in cs:
                    for v in ss:
                        plan.append((j + 1, k + 1, c, v, True))
                plan.append((j + 1, k + 1, r.choice(cs), r.choice(ss), False))
        r.shuffle(plan)
        out = []
        for j, k, c, v, impl in plan:
            m = self.svcs[j - 1]["methods"][k - 1]
            pr = r.choice(["connect", "connect", "grpc", "grpcweb"])
            out.append({"f": 1, "s": j, "m": k, "cli": c, "srv": v, "proto": pr, "impl": impl,
                        "get": pr == "connect" and m["kind"] == "unary" and m["idem"] == "NO_SIDE_EFFECTS" and r.random() < .6,
                        "nin": r.choice([0, 1, 2, 3]), "nout": r.choice([0, 1, 2, 3]),
                        "opt": r.choice(OPTS) if impl and r.random() < .5 else ""})
        return {"pb": self.pb, "io": self.io, "explicit": r.random() < .2, "files": self.files, "plan": out}


def known():
    """names that google.protobuf's generator keeps though Python cannot import them by name: recorded findings"""
    def one(stem, msg):
        return {"pb": "google", "io": "", "explicit": False, "plan": [],
                "files": [{"stem": stem, "pkg": "acme", "gen": True, "msgs": [msg], "ed": False, "first": False,
                           "services": [{"name": "Foo", "methods": [{"name": "Get", "kind": "unary", "idem": "UNKNOWN", "in": [0, msg], "out": [0, msg]}]}]}]}
    return [one("acme/foo", "None"), one("acme/foo", "Outer.class"), one("import/foo", "Req"), one("acme/1foo", "Req"), one("buf.build/foo", "Req")]


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_Codegen", "Gen_Codegen_big.cfg" if big else "Gen_Codegen.cfg")
    names = [p["name"] for p in pr if "name" in p]
    combos = [p for p in pr if "kind" in p]
    out = known()
    combos = combos * (6 if big else 1)
    groups = {}
    rng.shuffle(combos)
    for c in combos:
        groups.setdefault((c["pb"], c["io"]), []).append(c)
    rng.shuffle(names)
    at = 0
    for (pb, io), cs in sorted(groups.items()):
        i = 0
        while i < len(cs):
            b = Build(rng, pb, io)
            for c in cs[i:i + (5 if io == "" else 8)]:
                q = rng.random()
                n = names[at % len(names)] if q < .55 else rng.choice(MPLAIN) if q < .8 or not b.odd else rng.choice(MODD)
                at += q < .55
                t = 0
                while not b.add(n, c["kind"], c["idem"], c["x"], c["y"]):
                    t += 1
                    n = "M%d" % t
            i += 5 if io == "" else 8
            out.append(b.done())
    # services without methods, and several names for one function
    for _ in range(800 if big else 150):
        b = Build(rng, rng.choice(["py", "google"]), rng.choice(["", "sync", "async"]))
        b.odd = True
        for n in rng.sample(MODD + MPLAIN, rng.choice([0, 0, 1, 3, 6])):
            b.add(n, rng.choice(KINDS), rng.choice(IDEM), rng.choice(["own", "file"]), rng.choice(["own", "package"]))
        out.append(b.done())
    return out
