"""Payloads for the patterns of Gen_Codec: what each good or bad place of a call really carries."""
from . import pbref, zref

CODECS = ["proto", "json", "rjson", "gproto", "gjson"]
TYPES = ["rich"] * 6 + ["string", "int", "empty", "struct", "value", "ts", "dur", "any", "mask", "file", "leaf"]


def payload(side, codec, t, good, rng):
    """bytes handed to the codec under test to decode"""
    for _ in range(8):
        b = pbref.body(codec, t, rng, good)
        c, agreed = pbref.decode(codec, t, b)
        if agreed and (c is not None) == good:
            return {"hex": b.hex()}
    return {"hex": (b"" if pbref.split(codec)[1] == "proto" else b"{}").hex()} if good and t not in ("ts", "dur", "string", "int", "value", "mask") else None


def value(codec, t, good, rng):
    """a message handed to the codec under test to encode"""
    if not good and rng.random() < .4:
        return {"odd": rng.choice(["str", "int", "list", "bytes"])}
    for _ in range(8):
        m = pbref.msg(t, rng, not good, codec != "json")
        b = m.SerializeToString()
        if pbref.split(codec)[1] == "proto" and rng.random() < .2:
            b += rng.choice(pbref.UNKNOWN)
            m = pbref.G[t].FromString(b)
        x = m if pbref.split(codec)[0] == "g" else pbref.attempt(lambda: pbref.P[t].from_binary(b))
        if x is None:
            continue
        c, agreed = pbref.encode(codec, t, x)
        if agreed and (c is not None) == good:
            return {"bin": b.hex()}
    return {"bin": ""} if good else {"odd": rng.choice(["str", "int", "list", "bytes"])}


def plain(t, good, rng):
    if not good:
        return {"odd": "str"}
    m = pbref.msg(t, rng, False)
    if t == "string" and rng.random() < .08:
        m.value = rng.choice(["z" * 100000, "".join(chr(33 + rng.randrange(90)) for _ in range(rng.choice([40, 3000, 70000])))])
    return {"bin": m.SerializeToString().hex()}


def packed(alg, t, good, rng, s):
    """compressed payloads; what is not one complete stream stands for no message"""
    b = bytes.fromhex(plain(t, True, rng)["bin"])
    # a client's unary response is undone by the HTTP library, not by the code under test
    if s["side"] == "client" and s["kind"] == "unary" and s["proto"] == "connect":
        return {"hex": b.hex()} if good else None
    if pbref.decode("proto", t, b) != (pbref.attempt(lambda: pbref.canon(t, pbref.G[t].FromString(b))), True):
        return None
    z = zref.payload(alg, b, good, rng)
    return None if z is None else {"hex": z.hex()}


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pats = tlcgen("Gen_Codec", "Gen_Codec_big.cfg" if big else "Gen_Codec.cfg")
    pats.sort(key=lambda p: (p["side"], p["kind"], p["alt"], len(p["req"]), len(p["res"]), str(p)))
    out = []
    n = 120000 if big else 15000
    i = 0
    while len(out) < n:
        p = pats[i % len(pats)]
        i += 1
        comp = pid == "C09"
        codec = "proto" if comp else rng.choice(CODECS)
        t = rng.choice(["string", "rich"] if comp else TYPES)
        s = {"side": p["side"], "kind": p["kind"], "alt": p["alt"], "codec": codec, "type": t, "flav": rng.choice(["async", "sync"]),
             "proto": rng.choice(["connect", "grpc", "grpcweb"]), "send": rng.choice([None, None, "gzip"]), "more": rng.random() < .5}
        if p["kind"] == "unary" and s["proto"] == "connect" and rng.random() < .5:
            s["get"] = True
        if s["flav"] == "sync":
            s["alt"] = False
        srv = p["side"] == "server"
        if comp:
            a = s["comp"] = rng.choice(["gzip", "br", "zstd"])
            s["send"] = None
            s["level"] = rng.choice([[], [], {"gzip": [rng.randrange(10)], "br": [rng.randrange(12)], "zstd": [rng.choice([1, 7, 19])]}[a]])
            mk = lambda g, dec: packed(a, t, g, rng, s) if dec else plain(t, g, rng)
        else:
            mk = lambda g, dec: payload(p["side"], codec, t, g, rng) if dec else value(codec, t, g, rng)
        s["req"] = [mk(g, srv) for g in p["req"]]
        s["res"] = [mk(g, not srv) for g in p["res"]]
        if None in s["req"] + s["res"]:
            continue
        large = max((len(x.get("hex", "")) + len(x.get("bin", "")) for x in s["req"] + s["res"]), default=0) > 4000
        s["pat"] = rng.choice([None, None, [4096], [1000, 70000]] if large else [None, None, [1], [3, 50], [7]])
        out.append(s)
    return out
