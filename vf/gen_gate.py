"""Concretises the request classes of Gen_HttpGate and adds seeded random ones."""
import base64
import copy

APIS = ("asgi", "wsgi")
PFX = {"unary": "application/", "connect": "application/connect+", "grpc": "application/grpc+", "grpcweb": "application/grpc-web+"}
UNITS = {"H": 3600000, "M": 60000, "S": 1000, "m": 1}

MISS = {"asgi": [("/svc.S/m", ""), ("/svc.S/M/", ""), ("//svc.S/M", ""), ("/svc.S/", ""), ("/M", ""), ("/svc.S/MM", ""),
                 ("svc.S/M", ""), ("/SVC.S/M", ""), ("/svc.S//M", ""), ("/apix/svc.S/M", "/api"), ("/api/api/svc.S/M", "/api"),
                 ("/other/svc.S/M", "/api"), ("/api/svc.S/M", ""), ("/api", "/api"), ("/x/M", "/x"), ("", ""), ("/", ""), ("/svc.S/api/M", "/api"),
                 ("/svc.S/M/api", "/api"), ("/pia/svc.S/M", "/api"), ("/aapi/svc.S/M", "/api"), ("/x/api/svc.S/M", "/api"),
                 ("/api/svc.S/M/", "/api"), ("/API/svc.S/M", "/api"), ("/api//svc.S/M", "/api")],
        "wsgi": [("/svc.S/m", ""), ("/svc.S/M/", ""), ("//svc.S/M", ""), ("/svc.S/", ""), ("/M", ""), ("/svc.S/MM", ""),
                 ("/SVC.S/M", ""), ("/M", "/svc"), ("/M", "/svc.S/"), ("/M", "/svc.Sx"), ("/M/", "/svc.S"), ("/m", "/svc.S"),
                 ("/M", "/api/svc.T"), ("", ""), ("", "/svc.S"), ("/", "/svc.S"), ("/N2", "/svc.S"), ("M", "/svc.S"), ("/svc.S/M2", "/svc.S")]}
MOUNT = {"asgi": [("/api/svc.S/M", "/api"), ("/a/b/svc.S/M", "/a/b"), ("/svc.S/M", "/api"), ("/svc.S/M", "/svc.S"),
                  ("/svc/svc.S/M", "/svc"), ("/v/svc.S/M", "/v"), ("/svc.S/svc.S/M", "/svc.S")],
         "wsgi": [("/M", "/svc.S"), ("/svc.S/M", "/api"), ("/svc.S/M", "/svc.S")]}
BADC = ["-5", "+5", "1_0", "12345678901", "1.5", "abc", "5 ", "0x10", "1e3", "--", "00000000001", "\xd9\xa1"]
BADG = ["5", "S", "5s", "123456789S", "-5S", "+5S", "5 S", "1_0S", "5.5S", "S5", "000000005S", "abc", "5SS", "H5", " 5S", "5h",
        "\xd9\xa1S", "m", "99999999999n", "5ms"]


def tmo_ok(rng, fam):
    if fam in ("unary", "connect"):
        v = rng.choice([1, 9, 100, 1000, 59999, 1234567, 9999999, rng.randrange(1, 2000000000), 5000000000, 9999999999])
        s = str(v)
        if rng.random() < .2 and len(s) < 10:
            s = "0" + s
        return s, min(v, 2000000000)
    u = rng.choice("HMSmun")
    n = rng.choice([1, 7, 10, 999, 1000, 1001, 59000, 100000, 99999999, rng.randrange(1, 99999999)])
    if u in "un":
        ms = n // (1000 if u == "u" else 1000000)
    else:
        ms = n * UNITS[u]
    s = str(n)
    if rng.random() < .2 and len(s) < 8:
        s = s.rjust(8, "0")
    return s + u, min(ms, 2000000000)


def concretise(p, api, rng):
    fam, kind, d = p["fam"], p["kind"], set(p["devs"])
    codec = rng.choice(["raw", "raw", "proto", "json"] + (["alt"] if "alt" in d else []))
    if "alt" in d:
        codec = rng.choice(["alt", "json"])
    s = {"api": api, "fam": fam, "kind": kind, "nse": p["nse"], "codec": codec, "ct": PFX[fam] + codec, "verb": "POST",
         "route": {"path": "/svc.S/M", "root": "", "hit": True, "omit": rng.random() < .3},
         "msg": {"id": rng.randrange(8), "len": rng.choice([0, 1, 2, 5, 30])}, "h11": rng.random() < .8}
    if "get" in d and "verb" not in d and fam == "unary":
        s["verb"] = "GET"
    if "verb" in d:
        s["verb"] = rng.choice(["PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post", "GET", "GET", "TRACE"])
    if "get" in d and fam != "unary":
        s["verb"] = "GET"
    if "miss" in d:
        path, root = rng.choice(MISS[api])
        s["route"] = {"path": path, "root": root, "hit": False, "omit": rng.random() < .5}
    elif "mount" in d:
        path, root = rng.choice(MOUNT[api])
        s["route"] = {"path": path, "root": root, "hit": True}
    if "ctbad" in d:
        s["codec"] = ""
        if fam == "unary":
            s["ct"] = rng.choice([None, "", "text/plain", "application/xml", "application/raw2", "application/connect+raw",
                                  "application/grpcweb+proto", "application/rawx; a=b", "application/", "application/ra",
                                  "text/raw", "application/grpc-webx", "multipart/raw", "application/application/raw"])
            if s["ct"] is None and api == "wsgi" and rng.random() < .5:
                s["ctempty"] = True
        else:
            s["ct"] = PFX[fam] + rng.choice(["raw2", "", "xml", "RAWX", "connect+raw", "raw raw"])
            if fam in ("grpc", "grpcweb") and rng.random() < .3:
                s["ct"] = PFX[fam] + rng.choice(["raw; charset=utf-8", "protobuf"])
    elif "ctvar" in d:
        if fam in ("unary", "connect"):
            s["ct"] = rng.choice([PFX[fam].upper() + codec.upper(), PFX[fam] + codec + "; charset=utf-8", PFX[fam] + codec + ";x",
                                  PFX[fam].title() + codec.title() + " ; a=\"b;c\"", "  " + PFX[fam] + codec])
        else:
            s["ct"], s["codec"] = {"grpc": "application/grpc", "grpcweb": "application/grpc-web"}[fam], "proto"
    if "mismatch" in d and fam in ("unary", "connect"):
        s["fam"] = "connect" if fam == "unary" else "unary"
        if "ctbad" not in d:
            s["ct"] = PFX[s["fam"]] + codec
        s["verb"] = "POST" if s["verb"] == "GET" else s["verb"]
    if "ver1" in d:
        s["ver"], s["verc"] = "1", "1"
    if "verbad" in d:
        s["ver"], s["verc"] = rng.choice(["2", "", "v1", "01", "1.0", "1 1", "11", "0"]), "bad"
        if s["fam"] not in ("unary", "connect"):
            s["verc"] = "none"
    if "tmook" in d:
        s["tmo"], s["tms"] = tmo_ok(rng, s["fam"])
        s["tmoc"] = "ok"
    elif "tmobad" in d:
        s["tmo"] = rng.choice(BADC if s["fam"] in ("unary", "connect") else BADG)
        s["tmoc"] = "bad"
    if "encknown" in d:
        s["enc"], s["encc"] = rng.choice(["toy", "toy2"]), "known"
    elif "encunknown" in d:
        s["enc"], s["encc"] = rng.choice(["br", "toy3", "toy,toy2", "gzip", "to"]), "unknown"
    if "flag" in d and s["fam"] != "unary" and s["verb"] == "POST":
        s["flag"] = True
    if "decode" in d:
        s["bad"] = "decode"
    if s["verb"] == "GET":
        g = s["get"] = {"cls": "ok", "b64": rng.random() < .7, "pad": rng.random() < .5, "quote": rng.random() < .3,
                        "v": rng.random() < .7, "rot": rng.randrange(6), "encoding": s["codec"] or rng.choice(["", "raw2", "RAW", "application/raw"])}
        if rng.random() < .3:
            g["extra"] = rng.choice(["1", "%20", "a+b"])
        if not g["b64"]:
            s["msg"] = {"b64raw": base64.b64encode(rng.choice([b"", b"abc", b"a b&c=d", bytes(range(256)), b"\xff\xfe", "caf\u00e9 \u2603".encode(),
                                                               b"%41+", b"\xc3\xa9"])).decode()}
            g["safe"] = rng.choice(["", "!*'()", "~"])
            if rng.random() < .35:
                g["b64v"] = rng.choice(["0", "", "true", "false", "2", "11", "1x"])
        if "ver1" in d:
            g["v"] = True
        if "verbad" in d and rng.random() < .5:
            s.pop("ver", None)
            g["v"], g["vbad"] = True, rng.choice(["v2", "1", "", "v11", "V1"])
        if s.get("encc") == "known":
            g["comp"] = s["enc"]
        elif s.get("encc") == "unknown":
            g["comp"] = s["enc"] = rng.choice(["br", "toy3", "gzip"])
        if "short" in d or ("decode" in d and rng.random() < .5):
            s.pop("bad", None)
            k = rng.random()
            if k < .4:
                g["cls"] = "missing"
            elif k < .9:
                g["cls"], g["b64"] = "badb64", True
                g["rawmsg"] = rng.choice(["!!!!", "a", "PHJhdz4h!", "PHJh dz4", "abcde", "\u00e9\u00e9\u00e9\u00e9", "PHJhdz5h.", "PHJhdz5hPHJhdz5h$$", "aaaaa"])
    else:
        s["get"] = {"cls": "ok"}
    compressed = s.get("encc") == "known" and (s["fam"] == "unary" or s.get("flag"))
    if "decomp" in d and compressed and s["get"]["cls"] == "ok":
        if "decode" in d:
            s.pop("bad", None)
        s["bad"] = "decomp"
    plen = s["msg"].get("len", 0) if "len" in s["msg"] else len(base64.b64decode(s["msg"]["b64raw"]))
    full = plen + len(s["codec"] or "raw") + 2
    if s.get("bad") == "decode":
        full = plen + 4
    if "eq" in d:
        s["limit"] = full
    elif "over" in d:
        s["limit"] = rng.choice([full - 1, 0, max(0, full - 3)])
    if "bomb" in d and compressed and "bad" not in s:
        s["bomb"] = rng.choice([70000, 300])
        if "over" not in d and "eq" not in d:
            s["limit"] = rng.choice([100, 299])
    if "accept" in d:
        s["accept"] = rng.choice([["toy"], ["toy2", "toy"], ["br", "toy2"], ["identity", "toy"], ["br"], ["gzip", "br", "toy"], [""],
                                  ["TOY", "toy2"], ["toy;q=0", "toy2"], ["*"], ["toyx", "to", "toy2", "toy"]])
        s["asep"] = rng.choice([", ", ",", " , ", ",  "])
    if "arrive" in d:
        n = full + 5
        s["cuts"] = sorted(rng.randrange(0, n + 1) for _ in range(rng.randrange(1, 5)))
        s["empties"] = rng.random() < .3
        s["sep_end"] = rng.random() < .4
        s["omit"] = rng.random() < .4
        s["clen"] = rng.choice(["exact", "absent", "empty", "extra3", "extra900"])
        s["short"] = rng.choice([[1], [2, 1], [3], [1 << 30], [1, 1 << 30], [4, 1, 1]])
    if "short" in d and s["verb"] != "GET":
        if api == "asgi":
            s["disc_at"] = rng.randrange(0, 3)
            s.setdefault("cuts", [2, 5])
        elif s["fam"] == "unary":
            s["clen"] = "more%d" % rng.choice([1, 5, 4096])
    return s


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_HttpGate", "Gen_HttpGate_big.cfg" if big else "Gen_HttpGate.cfg")
    pr.sort(key=lambda p: (p["fam"], p["kind"], p["nse"], sorted(p["devs"])))
    if big and len(pr) > 30000:
        pr = rng.sample(pr, 30000)
    out = []
    for p in pr:
        for api in APIS:
            out.append(concretise(p, api, rng))
    # the deviation a property is about, in depth
    focus = {"C15": ["get"], "C23": ["arrive"], "C11": ["tmook", "tmobad"], "C09": ["encknown", "encunknown", "accept"],
             "C10": ["eq", "over", "bomb"], "C22": ["ctvar", "ctbad", "alt"], "C07": ["miss", "verb", "ctbad", "verbad", "tmobad"]}.get(pid, [])
    allv = ["miss", "mount", "verb", "ctbad", "ctvar", "mismatch", "ver1", "verbad", "tmook", "tmobad", "encknown", "encunknown",
            "flag", "decode", "decomp", "eq", "over", "bomb", "accept", "get", "arrive", "short", "alt"]
    benign = ["mount", "ctvar", "ver1", "tmook", "encknown", "eq", "accept", "arrive", "alt"]
    for _ in range(60000 if big else 10000):
        fam = rng.choice(["unary", "unary", "unary", "connect", "grpc", "grpcweb"])
        kind = "unary" if fam == "unary" else rng.choice(["server", "client", "bidi"] + (["unary"] if fam != "connect" else []))
        pool = benign if rng.random() < .6 else allv
        d = set(rng.sample(pool, rng.randrange(0, 6)))
        if focus:
            d.add(rng.choice(focus))
        if rng.random() < .2:
            d.add("get")
        if pid in ("C09", "C10", "C15") and rng.random() < .15:
            fam, kind = "unary", "unary"
            d |= {"get", "encknown"} | ({rng.choice(["bomb", "over", "eq"])} if pid == "C10" else set())
        out.append(concretise({"fam": fam, "kind": kind, "nse": rng.random() < .6, "devs": sorted(d)}, rng.choice(APIS), rng))
    # large messages: nothing limits them unless configured
    if pid in ("C10", "C23", "C07"):
        for api in APIS:
            for fam in ("unary", "connect", "grpc", "grpcweb"):
                for n in (65536, (1 << 20) + 1, (4 << 20) + 1, (16 << 20) + 1):
                    kind = "unary" if fam == "unary" else rng.choice(["server", "client", "bidi"])
                    s = concretise({"fam": fam, "kind": kind, "nse": False, "devs": rng.choice([[], ["encknown"], ["encknown", "flag"]])}, api, rng)
                    s["codec"], s["ct"] = "raw", PFX[fam] + "raw"
                    s["msg"] = {"id": 3, "len": n}
                    if rng.random() < .4:
                        s["limit"] = n + 5 + rng.choice([0, 0, 100, -1])
                    if rng.random() < .5:
                        s["cuts"] = sorted(rng.randrange(0, n) for _ in range(3))
                        s["short"] = [65536, 1 << 20]
                    out.append(s)
    return out
