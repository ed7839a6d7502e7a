import json

KINDS = ("unary", "client", "server", "bidi")
UTF = ["é", "ß∂", "日本", "\U0001f600", "e\u0301", "\u2028", "\ufeffx", "\x7f", "\x80", "ÿ", "a\u00a0", "\ufffd", "%é", "+ ü"]
ASC = ["m", "boom", "no such thing: 'x'", "a=b; c,d", "x+y", "a/b?c&d#e", "~._-", "\"q\"", "back\\slash", "a:b", "0", "null", "{}", "<a>", "[1]", "type.googleapis.com/", "a" * 70]
PCT = ["%", "100%", "%41", "%%", "%e2%82%ac", "%2B", "a%zz", "%4", "+%20+", "%0A"]
CTL = ["a\nb", "\r\n", "\ta\t", "\0", "a\x1fb", "line1\r\nx-evil: 1", "\x0b\x0c"]
BLANK = [" ", " a", "a ", "  a b  ", "a  b"]
BADPCT = ["%", "%4", "%zz", "a%", "%é", "50% off", "%4g%41", "%%41"]
NAMES = ["a.B", "acme.v1.ErrorInfo", "google.protobuf.StringValue", "x", "google.rpc.RetryInfo", "a.b.C.Nested"]


def msg(rng, cls):
    if cls == "empty":
        return ""
    if cls == "badpct":
        return rng.choice(BADPCT)
    pool = {"ascii": ASC, "pct": PCT, "utf8": UTF, "ctl": CTL, "blank": BLANK}[cls]
    if cls == "blank" or rng.random() < .5:
        return rng.choice(pool)
    s = "".join(rng.choice(rng.choice([ASC[:13], pool, pool])) for _ in range(rng.randrange(1, 4)))
    return s


def val(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 30])
    k = rng.randrange(4)
    if k == 0:
        return [rng.choice([0xFB, 0xFF, 0xFE, 0xBF, 0x3E, 0x3F]) for _ in range(n)]
    if k == 1:
        return [0] * n
    return [rng.randrange(256) for _ in range(n)]


def dets(rng, cls):
    if cls == "none":
        return []
    if cls == "empty":
        return [[rng.choice(NAMES), [], "any"]]
    n = {"one": 1, "two": 2, "three": 3, "many": rng.randrange(4, 9)}[cls]
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .15:
            out.append(["google.protobuf.StringValue", rng.choice(["", "x", "é" * 3, "a" * 40]), "str"])
        elif k < .25:
            out.append(["google.protobuf.Duration", rng.choice([0, 1, 300]), "dur"])
        else:
            out.append([rng.choice(NAMES), val(rng), rng.choice(["any", "ed"])])
    return out


def scn(p, rng):
    plain = p["proto"] == "plain"
    kind = "unary" if plain else rng.choice(KINDS[1:] if p["proto"] == "connect" else KINDS)
    s = {"dir": p["dir"], "proto": "connect" if plain else p["proto"], "kind": kind, "code": p["code"], "msg": msg(rng, p["m"]),
         "det": dets(rng, p["d"]), "after": rng.choice([0, 0, 1, 2]) if kind in ("server", "bidi") else 0, "plain": plain}
    if p["dir"] == "enc":
        s["api"] = rng.choice(["asgi", "wsgi"])
        s["accept"] = rng.random() < .2
        if s["code"] == 2 and not s["det"] and rng.random() < .6:
            s["raw"] = rng.choice(["ValueError", "KeyError", "OSError", "RuntimeError"])
        if rng.random() < .04:
            s["msg"] += rng.choice(["\ud800", "a\udcff", "\udc80b"])
        return s
    s["flav"] = rng.choice(["async", "sync"])
    s["det"] = [[t, v if k in ("any", "ed") else [], "any"] for t, v, k in s["det"]]
    s["pad"] = rng.random() < .5
    if plain or p["proto"] == "connect":
        s["ascii"] = rng.random() < .5
        s["space"] = rng.random() < .3
        s["rev"] = rng.random() < .3
        s["debug"] = rng.random() < .2
        s["extra"] = rng.random() < .2
        s["status"] = rng.choice([400, 401, 403, 404, 408, 409, 412, 413, 415, 429, 431, 499, 500, 501, 502, 503, 504, 418, 599])
        s["charset"] = rng.random() < .2
        s["nomsg"] = s["msg"] == "" and rng.random() < .7
        s["unknown"] = rng.choice(["no_such_code", "CANCELED", "Canceled", "cancelled", "5", "ok"])
        s["endcomp"] = rng.random() < .2
        if s["code"] == 0 and s["nomsg"] and not s["det"]:
            s["nomsg"] = False  # an error object without members says nothing
    else:
        s["style"] = rng.choice(["min", "all", "lower", "upper"])
        if p["m"] == "badpct":
            s["style"] = "none"
        s["num"] = p["code"] if p["code"] in range(1, 17) else rng.choice([17, 18, 99, 100, 255, 9999])
        s["where"] = rng.choice(["trailers", "only"])
        if s["after"]:
            s["where"] = "trailers"
        s["case"] = rng.choice(["low", "low", "title", "up"])
        s["sp"] = rng.choice([" ", " ", "", "  ", "\t"])
        s["order"] = rng.randrange(6)
        s["md"] = rng.random() < .3
        s["endcomp"] = rng.random() < .2
        s["unkf"] = rng.random() < .3
        s["lead0"] = False
    return s


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_ErrorWire", "Gen_ErrorWire_big.cfg" if big else "Gen_ErrorWire.cfg")
    out = []
    for p in pr:
        for _ in range(4 if big else 2):
            out.append(scn(p, rng))
    return out
