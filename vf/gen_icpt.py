"""Chains of interceptors: concretises Gen_Interceptors and adds seeded random ones."""
from .gen_server import CODES

KINDS = ("unary", "client", "server", "bidi")
FLAV = [(f, a, p) for f in ("async", "sync") for a in ("asgi", "wsgi") for p in ("connect", "grpc", "grpcweb")]
ACTS = ["pass", "pass", "req", "resp", "reqresp", "before", "rawbefore", "short", "after", "catch", "replace", "stop0", "stop1", "extra"]


def err(rng, raw=False):
    return ["rawraise" if raw else "raise", rng.choice(CODES), rng.choice(["m", "", "two words"])]


def act(rng, a):
    return {"pass": {}, "req": {"req": True}, "resp": {"resp": True}, "reqresp": {"req": True, "resp": True}, "before": {"before": err(rng)},
            "rawbefore": {"before": err(rng, True)}, "short": {"short": True}, "after": {"after": err(rng)}, "catch": {"catch": True},
            "replace": {"replace": err(rng)}, "stop0": {"stop": 0}, "stop1": {"stop": 1, "resp": True}, "extra": {"extra": True, "req": True}}[a]


def icpt(rng, name, what, a, caps):
    s = {"name": name, "meta": what == "meta", "caps": list(caps), "for": rng.choice(["own", "own", "both"])}
    if what == "other":
        s["for"], s["meta"] = "other", rng.random() < .4
    if what == "meta":
        s["slow"] = rng.random() < .3
        s["tok"] = rng.choice(["id", "id", "tuple", "none", "none", "falsy"])
        s["fail"] = a == "before"
    elif what == "full":
        s["act"] = act(rng, a)
    return s


def mkcall(rng, kind):
    c = {"kind": kind, "nreq": rng.randrange(4), "n": rng.randrange(4)}
    k = rng.random()
    if k < .25:
        c["err"] = err(rng)
    elif k < .35:
        c["err"] = err(rng, True)
    if "err" in c and rng.random() < .3:
        c["early"] = True
    if kind in ("server", "bidi") and rng.random() < .25:
        c["stop"] = rng.randrange(3)
    return c


def cuts(rng, s):
    """Calls the caller gives up while the handler is at work."""
    if s["flav"] == "async" and s["api"] == "asgi":
        for c in s["calls"]:
            if "err" not in c and "stop" not in c and rng.random() < .4:
                c["cut"] = rng.choice(["cancel", "timeout"])
                c["below"] = rng.random() < .5
    return s


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_Interceptors", "Gen_Interceptors_big.cfg" if big else "Gen_Interceptors.cfg")
    pr.sort(key=lambda p: (p["kind"], p["side"], p["what"], p["acts"]))
    out = []
    for n, p in enumerate(pr):
        fap = FLAV[n % len(FLAV)]
        chain = [icpt(rng, p["side"] + str(i + 1), w, a, [p["kind"]] if w == "full" else [k for k in KINDS if k != p["kind"]])
                 for i, (w, a) in enumerate(zip(p["what"], p["acts"]))]
        s = {"flav": fap[0], "api": fap[1], "proto": fap[2], "client": [], "server": [], "form": rng.choice(["list", "tuple", "iter", "gen"])}
        s["client" if p["side"] == "c" else "server"] = chain
        c = mkcall(rng, p["kind"])
        s["calls"] = [c]
        out.append(cuts(rng, s))
    for n in range(12000 if big else 2500):
        fap = FLAV[n % len(FLAV)]
        s = {"flav": fap[0], "api": fap[1], "proto": fap[2], "form": rng.choice(["list", "tuple", "iter", "gen"])}
        for side, k in (("client", "c"), ("server", "s")):
            l = []
            for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
                w = rng.choice(["full", "full", "full", "meta", "meta", "other"])
                caps = [x for x in KINDS if rng.random() < .6]
                l.append(icpt(rng, k + str(i + 1), w, rng.choice(ACTS) if rng.random() < .6 else rng.choice(["pass", "req", "resp", "reqresp"]), caps))
            s[side] = l
        s["calls"] = [mkcall(rng, rng.choice(KINDS)) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < .3:
            s["par"] = True
        out.append(cuts(rng, s))
    return out
