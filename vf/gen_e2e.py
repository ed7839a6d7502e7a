"""Concretises the calls of Gen_EndToEnd: flavours, protocols, codecs, compressions, metadata, timeouts, schedules."""
from .gen_server import CODES

FLAV = [(f, a, p) for f in ("async", "sync") for a in ("asgi", "wsgi") for p in ("connect", "grpc", "grpcweb")]
TEXTS = ["", "m", "plain words", "100% sure % %4 %zz", "caf\u00e9 \u2603 \U0001f600", "line\nbreak\r\n\ttab", "\"quoted\" \\ back", " lead and trail ",
         "\x00\x01\x7f", "a" * 300, "+&=?#/", "~", "%25", "\u0080\u07ff\u0800\uffff", "{}", "null", "a,b;c:d", "\u2028\u2029"]
HVALS = ["1", "v v", "a=b; c=d", "%41%", "\"q\"", "~!@#$^&*()", "x" * 200, "0", "a:b", "tail;", "=", "YWJj", "a'b"]
SVALS = ["", "a", "\u00e9\u2603\U0001f600", "\x00\x1f", "x" * 5000, "\"}{", "\\u0041", " ", "\u2028", "\r\n", "\x7f\u0080"]
IVALS = [0, 1, -1, 127, 128, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63]
JVALS = [{}, {"a": 1}, {"a": {"b": [1, "x", None, True, {"c": []}]}}, {"": ""}, {"k\u00e9": "\u2603"}, {"n": 1.5}, {"n": -0.25}, {"n": 1e21}, {"t": False}]
REAL = ["gzip", "br", "zstd"]
ALLC = REAL + ["toy", "toy2"]


def value(rng, mtype, raw):
    k = "bytes" if raw else mtype
    if rng.random() < .15:  # messages whose encoding is empty
        return {"bytes": ["b", 0, 0], "string": ["s", ""], "int": ["i", 0], "struct": ["j", {}]}[k]
    if k == "bytes":
        return ["b", rng.randrange(12), rng.choice([0, 0, 1, 2, 3, 4, 5, 10, 30, 127, 128, 300, 700] + ([70000] if rng.random() < .1 else []))]
    if k == "string":
        return ["s", rng.choice(SVALS)]
    if k == "int":
        return ["i", rng.choice(IVALS)]
    return ["j", rng.choice(JVALS)]


def detail(rng):
    k = rng.choice(["str", "dur", "ts", "bytes", "st", "any", "edany", "any"])
    return [k, {"str": lambda: rng.choice(SVALS[:5]), "dur": lambda: rng.choice([0, 1, 10 ** 9]), "ts": lambda: rng.randrange(10 ** 9),
                "bytes": lambda: [rng.randrange(256) for _ in range(rng.randrange(7))], "st": lambda: rng.choice(JVALS),
                "any": lambda: [rng.choice(["a.B", "acme.v1.Thing", "x"]), [rng.randrange(256) for _ in range(rng.randrange(9))]],
                "edany": lambda: [rng.choice(["a.B", "q"]), [255] * rng.randrange(5)]}[k]()]


def ending(rng, e, kind, mk):
    if e == "raise":
        return [["raise", rng.choice(CODES), rng.choice(TEXTS), [detail(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]]]
    if e == "rawraise":
        return [["rawraise", rng.choice(["ValueError", "KeyError", "RuntimeError", "OSError", "Lookup", "Arith", "TimeoutError"]), rng.choice(TEXTS)]]
    return [["ret", mk()]] if kind in ("unary", "client") else []


def call(p, s, rng, focus):
    kind = p["kind"]
    raw = s["codec"] == "raw"
    mk = lambda: value(rng, s["mtype"], raw)
    script = []
    ops = list(p["ops"])
    if focus in ("C08", "C18") and rng.random() < .7:
        for _ in range(rng.randrange(1, 4)):
            ops.insert(rng.randrange(len(ops) + 1), rng.choice(["hdr", "trl"]))
    for o in ops:
        if o in ("hdr", "trl"):
            script.append([o, rng.choice(["x-m", "x-m", "x-n", "X-Up", "x-bin", "x-data-bin", "x-trailer-n"]
                                         + (["Trailer-x"] if o == "trl" else [])), rng.choice(HVALS)])
        elif o == "yield":
            script.append(["yield", mk()])
        elif o == "read":
            script.append(["read"])
        else:
            script.append(["sleep", rng.randrange(1, 4)])
    if p["all"]:
        at = len(script) if rng.random() < .5 else rng.randrange(len(script) + 1)
        script.insert(at, [p["all"]])
    script += ending(rng, p["end"], kind, mk)
    c = {"kind": kind, "reqs": [mk() for _ in range(p["n"])], "script": script}
    if kind in ("server", "bidi") and p["stop"] >= 0:
        c["stop"] = p["stop"]
    if rng.random() < (.9 if focus == "C08" else .4):
        f = c["form"] = rng.choice(["headers", "headers", "dict", "tuple"])
        names = ["x-a", "x-b", "X-Mixed-Case", "x-a", "x-bin", "x-data-bin", "trailer-x"]
        hs = []
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice(names)
            if f == "dict" and n.lower() in [h[0].lower() for h in hs]:
                continue
            v = rng.choice(HVALS)
            if s["api"] == "asgi" and rng.random() < .15:
                v = "a, b,c"
            hs.append([n, v])
        if rng.random() < .15 and not s.get("_multi"):
            hs.append(["user-agent", "mine/1"])
        c["hdrs"] = hs
    if kind == "unary":
        if rng.random() < (1 if focus == "C15" else .3):
            c["nse"] = True
            if s["proto"] == "connect" and rng.random() < (.85 if focus == "C15" else .5):
                c["get"] = True
    if rng.random() < (.8 if focus == "C11" else .25):
        lo = 1 if s["flav"] == "async" else 20000
        c["tmo"] = max(lo, rng.choice([1, 7, 50, 999, 1000, 30000, 99999999, 100000000, 100000001, 123456789, 9999999999, rng.randrange(1, 10 ** 6),
                                       rng.randrange(1, 10 ** 10)]))
    return c


def base(rng, fap, kind, focus):
    flav, api, proto = fap
    s = {"flav": flav, "api": api, "proto": proto, "codec": rng.choice(["raw", "proto", "json", "gproto", "gjson"])}
    s["mtype"] = rng.choice(["bytes", "string", "int", "struct"])
    pool = REAL if proto == "connect" and kind in ("unary", None) else ALLC
    if rng.random() < .5 or focus == "C09":
        s["accept"] = rng.choice([[], rng.sample(pool, 1), rng.sample(pool, 2), rng.sample(pool, 3), None])
        s["supp"] = rng.choice([[], rng.sample(pool, 1), rng.sample(pool, 2), rng.sample(pool, 3), None])
    sup = s["supp"] if s.get("supp") is not None else ["gzip"]
    if sup and rng.random() < .5:
        s["send"] = rng.choice(sup)
    if rng.random() < .4:
        s["pat"] = rng.choice([[1], [2, 1], [3], [7], [1, 64], [5, 5, 1]])
    if flav == "async" and api == "asgi" and rng.random() < .3:
        s["eager"] = True
    if rng.random() < .3:
        s["defcodecs"] = True
    if rng.random() < .4:
        s["morecodecs"] = True
    if rng.random() < (.5 if kind is None else .15):
        s["spy"] = True
    if rng.random() < .2:
        s["tmo"] = rng.choice([20000, 60000, 123456789012])
    return s


def shrink(s):
    big = s.get("pat") and min(s["pat"]) <= 3
    for c in s["calls"]:
        for l in (c["reqs"], [o[1] for o in c["script"] if o[0] in ("yield", "ret")]):
            for v in l:
                if v[0] == "b" and v[2] > 1000 and big:
                    v[2] = 700
                if v[0] == "s" and len(v[1]) > 1000 and big:
                    v[1] = "x" * 300


def timed(s, rng):
    """time passes while several calls are open, each with a deadline of its own"""
    for c in s["calls"]:
        c.pop("tmo", None)
        c.pop("cancel", None)
        if rng.random() < .7:
            c["tmo"] = rng.choice([20000, 60000, 200000])
        if c["kind"] in ("server", "bidi") and s["flav"] == "async":
            c["pause"] = [[rng.randrange(4), rng.choice([1000, 15000, 30000, 90000])] for _ in range(rng.randrange(1, 3))]
    if s.get("tmo"):
        s["tmo"] = rng.choice([30000, 100000])
    if s["flav"] == "sync":
        s["turns"] = rng.randrange(1 << 30)
        s["ticks"] = rng.choice([[0], [0, 5000], [0, 0, 30000], [1000, 70000]])
        for c in s["calls"]:
            c.pop("delay", None)
            if rng.random() < .7:
                c.pop("stop", None)


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_EndToEnd", "Gen_EndToEnd_big.cfg" if big else "Gen_EndToEnd.cfg")
    pr.sort(key=lambda p: (p["kind"], p["n"], p["ops"], p["all"], p["end"], p["stop"]))
    if pid == "C05":
        pr = [p for p in pr if p["end"] != "ok"]
    if pid in ("C15", "C11"):
        pr = [p for p in pr if p["kind"] == "unary"] * (6 if pid == "C15" else 1) + ([p for p in pr if p["kind"] != "unary"] if pid == "C11" else [])
    n1 = {"C19": 800}.get(pid, 4800) * (6 if big else 1)
    n2 = {"C19": 2400, "C26": 800, "C08": 400}.get(pid, 200) * (6 if big else 1)
    bykind = {}
    for p in pr:
        bykind.setdefault(p["kind"], []).append(p)
    kinds = sorted(bykind)
    out = []
    # every kind in every flavour gets the same share, whatever the size of its program space
    for i in range(n1):
        kind = kinds[i % len(kinds)]
        p = rng.choice(bykind[kind])
        fap = FLAV[(i // len(kinds)) % len(FLAV)]
        if pid == "C15" and rng.random() < .8:
            fap = (fap[0], fap[1], "connect")
        s = base(rng, fap, kind, pid)
        s["calls"] = [call(p, s, rng, pid)]
        if s["flav"] == "async":
            if rng.random() < .3:
                s["sched"] = rng.randrange(1 << 30)
            if s["api"] == "asgi" and kind == "bidi" and rng.random() < .25:
                c = s["calls"][0]
                c["reqs"] = [value(rng, s["mtype"], s["codec"] == "raw") for _ in range(rng.randrange(1, 5))]
                c["script"] = [o for o in c["script"] if o[0] in ("hdr", "trl")] + [["echo"]] + [o for o in c["script"] if o[0] in ("raise", "rawraise")]
                c["pingpong"] = True
                c.pop("stop", None)
                s.pop("eager", None)
            if s["api"] == "asgi" and kind in ("client", "bidi") and rng.random() < .25 and "pingpong" not in s["calls"][0]:
                # the caller says no more until it has its answer
                c = s["calls"][0]
                c["script"] = [o for o in c["script"] if o[0] not in ("readall", "echo")]
                reads = sum(o[0] == "read" for o in c["script"])
                if reads <= len(c["reqs"]):
                    c["hold"] = rng.randrange(reads, len(c["reqs"]) + 1)
                    s.pop("eager", None)
            if rng.random() < (.06 if pid != "C26" else .12) and s["api"] == "asgi":
                s["calls"][0]["cancel"] = rng.randrange(0, 30)
        shrink(s)
        out.append(s)
    for i in range(n2):
        fap = FLAV[i % len(FLAV)]
        if fap[0] == "sync" and rng.random() < .5:
            fap = ("async", fap[1], fap[2])
        s = base(rng, fap, None, pid)
        s["_multi"] = True
        s["calls"] = []
        turns = s["flav"] == "sync" and rng.random() < .6
        for j in range(rng.choice([2, 2, 3, 4, 6] if s["flav"] == "async" else [2, 3])):
            streams = [k for k in kinds if k in ("server", "bidi")]
            kind = rng.choice(streams if turns and streams and rng.random() < .8 else kinds)
            c = call(rng.choice(bykind[kind]), s, rng, pid)
            if rng.random() < .5:
                c["delay"] = rng.randrange(12)
            if s["flav"] == "async" and s["api"] == "asgi" and rng.random() < .15:
                c["cancel"] = rng.randrange(0, 60)
            s["calls"].append(c)
        s.pop("_multi")
        if rng.random() < .4 and s["flav"] == "async" or turns:
            timed(s, rng)
        s["sched"] = rng.randrange(1 << 30)
        shrink(s)
        out.append(s)
    return out
