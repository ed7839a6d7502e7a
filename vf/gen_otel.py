CODES = ["canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists", "permission_denied", "resource_exhausted",
         "failed_precondition", "aborted", "out_of_range", "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated"]
ADDR = ["port", "port", "bare", "tls", "tlsport", "path", "portpath", "v6", "v6bare", "v6tls", "v4", "v4path"]
HOST = ["h.example:81", "h.example:81", "h.example", "[::1]:8080", "[::1]", "10.0.0.7", "-", "h:x", "h:", ":81", "a:b:c", "::1", "h:99999999", "[",
        "h:" + "9" * 4500, "h:-1", "h:\u00b2"]


def call(rng, kind, out, parent):
    c = {"kind": kind, "out": out, "parent": parent, "n": rng.randrange(0, 4) if kind in ("server", "bidi") else 1, "q": rng.randrange(0, 4)}
    if parent and rng.random() < .4:
        c["parent"] = "nr"
    if out in ("err", "sub"):
        c["code"] = rng.choice(CODES)
    if out == "raw":
        c["exc"] = rng.choice(["ValueError", "KeyError", "Outer.Inner", "OSError", "TimeoutError", "LookupError"])
    if out == "early":
        c["n"] = rng.randrange(1, 5)
        c["early"] = rng.randrange(1, c["n"] + 1)
        c["out"] = "ok"
    if out == "slow" and rng.random() < .4:
        c["cancel"] = True
    if kind == "unary" and rng.random() < .2:
        c["get"] = True
    if rng.random() < .2:
        c["tp"] = True
    c["nap"] = rng.choice([0, 0, 1, 3])
    if c["out"] in ("ok", "err", "sub", "raw") and "early" not in c and rng.random() < .12:
        c["busy"] = rng.choice([2000, 4000])
    return c


def scn(rng, flav, api, proto, calls, who):
    s = {"flav": flav, "api": api, "proto": proto, "calls": calls, "cl": who in ("both", "cl"), "sv": who in ("both", "sv"),
         "samep": rng.random() < .4, "addr": rng.choice(ADDR), "host": rng.choice(HOST), "caddr": rng.choice(["v4", "v4", "v6", "none", "odd", "empty"]),
         "prop": rng.choice(["", "", "w3c", "own"]), "off": rng.random() < .08, "glob": rng.random() < .15, "conc": len(calls) > 1 and rng.random() < .7}
    if s["glob"]:
        s["off"] = False
    for c in calls:
        if proto != "connect":
            c.pop("get", None)
        if s["prop"] == "own":
            c.pop("tp", None)
        if len(calls) > 1:
            c["delay"] = rng.choice([0, 1, 2, 5])
    return s


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    out = []
    for p in tlcgen("Gen_Telemetry", "Gen_Telemetry.cfg"):
        for _ in range(6 if big else 2):
            out.append(scn(rng, p["flav"], p["api"], p["proto"], [call(rng, p["kind"], p["out"], p["parent"])], p["who"]))
    kinds = ["unary", "client", "server", "bidi"]
    for _ in range(6000 if big else 1500):
        flav, api = rng.choice(["async", "async", "sync"]), rng.choice(["asgi", "wsgi"])
        cs = []
        for _ in range(rng.randrange(2, 5)):
            k = rng.choice(kinds)
            o = rng.choice(["ok", "ok", "err", "raw", "net", "sub"] + (["slow", "kill"] if flav == "async" and api == "asgi" else []) + (["early"] if k in ("server", "bidi") else []))
            cs.append(call(rng, k, o, rng.random() < .5))
        out.append(scn(rng, flav, api, rng.choice(["connect", "grpc", "grpcweb"]), cs, rng.choice(["both", "both", "both", "cl", "sv"])))
    for odd in ("turns", "left"):
        c = {"kind": "server", "out": "ok", "parent": False, "n": 3, "q": 1}
        out.append({"flav": "async", "api": "asgi", "proto": "connect", "calls": [c, dict(c)][:2 if odd == "turns" else 1], "cl": True, "sv": False,
                    "samep": False, "addr": "port", "host": "h.example:81", "caddr": "v4", "prop": "", "off": False, "glob": False, "conc": False, "odd": odd})
    return out
