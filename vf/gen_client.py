"""Scenarios for RpcClient."""
import json

from .gen_server import CODES, MSGS

APIS = ("async", "sync")
PROTOS = ("connect", "grpc", "grpcweb")
KINDS = ("unary", "client", "server", "bidi")


def term(rng, k, proto):
    if k == "ok":
        t = {"k": "ok"}
    elif k == "err":
        t = {"k": "err", "code": rng.choice(CODES), "msg": rng.choice(MSGS)}
        if rng.random() < .3:
            t["details"] = [["a.B", [1, 2, 3][:rng.randrange(4)]] for _ in range(rng.randrange(1, 3))]
            t["pad"] = rng.random() < .5
        t["style"] = rng.choice(["min", "all", "lower"])
    else:
        return {"k": "missing"}
    if rng.random() < .3:
        t["md"] = [["x-t", rng.choice(["1", "v v"])]]
    return t


def put_term(s, t, rng, late=False):
    """attach terminal to scenario in the protocol's place"""
    p = s["proto"]
    if p == "grpc":
        if t["k"] == "missing":
            return
        if not s["frames"] and rng.random() < .5:
            s["hst"] = t
        else:
            s["trl"] = t
    elif t["k"] == "missing":
        return
    elif p == "grpcweb" and not s["frames"] and rng.random() < .3:
        s["hst"] = t
    else:
        s["frames"] = s["frames"] + [{"end": t, "flag": 0}]


def chunk(printed, rng, n):
    out = []
    pr = list(printed)
    if n and len(pr) > n:
        pr = rng.sample(pr, n)
    for i, p in enumerate(pr):
        api = APIS[i % 2]
        proto = PROTOS[(i // 2) % 3]
        s = {"api": api, "proto": proto, "kind": ("bidi", "server")[(i // 6) % 2], "tail": p["tail"], "cuts": p["cuts"],
             "enc": "toy", "frames": [], "send": rng.choice(["", "toy"])}
        seen = False
        for f in p["frames"]:
            if f["end"]:
                if proto == "grpc":
                    if not seen:
                        s["trl"] = term(rng, f["end"], proto)
                    seen = True
                    continue
                t = {"k": f["end"]}
                if f["end"] == "err":
                    t.update(code=rng.choice(CODES), msg=rng.choice(["", "m"]))
                s["frames"].append({"end": t, "flag": rng.choice([0, 0, 1])})
            elif proto == "grpc" and seen:
                continue
            else:
                s["frames"].append({"id": f["id"], "len": f["len"], "flag": f["flag"]})
        if rng.random() < .2:
            s["gap"] = True
        out.append(s)
    return out


def single(printed, rng):
    out = []
    for p in printed:
        if p["proto"] == "connect" and p["kind"] == "unary":
            continue
        s = {"api": p["api"], "proto": p["proto"], "kind": p["kind"], "reqs": [2],
             "frames": [{"id": j + 1, "len": (1 + j if rng.random() < .5 else 0), "flag": 0} for j in range(p["n"])]}
        if s["frames"] and rng.random() < .3:
            s["frames"] = [dict(s["frames"][-1]) for _ in s["frames"]]
        t = term(rng, p["term"], p["proto"])
        put_term(s, t, rng)
        s["cuts"] = {"same": [], "split": [6, 7, 13], "late": [6, 6, 13, 13, 21, 21]}[p["when"]]
        out.append(s)
    return out


def fault(printed, rng):
    out = []
    for p in printed:
        s = {"api": p["api"], "proto": p["proto"], "kind": p["kind"], "reqs": [2],
             "frames": [{"id": j + 1, "len": 1 + j, "flag": 0} for j in range(p["n"])], "cuts": [6, 13],
             "fault": {"k": p["k"], "at": p["at"]}}
        if p["k"] == "hang":
            s["timeout"] = rng.choice([1, 50, 250, 3000])
        elif rng.random() < .3:
            s["timeout"] = 5000
        if p["k"] == "cancel" and p["api"] == "sync":
            continue
        put_term(s, term(rng, rng.choice(["ok", "ok", "err"]), p["proto"]), rng)
        if p["proto"] == "grpc" and rng.random() < .4:
            s["rst_trailers"] = True
            if rng.random() < .3:
                s["trl"] = {"k": "raw", "kv": [["grpc-status", "3"], ["grpc-status-details-bin", rng.choice(["!!!", "AAA", "//8"])]],
                            "cls": {"k": "any", "code": "", "msg": ""}}
        if rng.random() < .3 and p["k"] == "hang":
            s["delays"] = [[rng.randrange(3), max(1, s["timeout"] // 4)]]
        out.append(s)
    return out


HTMLS = ["<html>oops</html>", "{", "null", "[1]", "\"s\"", "5", "{]", "\udcff\udcfe", ""]


def body_of(kind, rng, msg=None):
    m = rng.choice(MSGS) if msg is None else msg
    if kind == "err":
        b = {"k": "err", "code": rng.choice(CODES), "msg": m}
        if rng.random() < .3:
            b["details"] = [["a.B", [1, 2, 3][:rng.randrange(4)]]]
        if rng.random() < .2:
            b["extra"] = {"unknown": [1, {"x": None}]}
        return b
    if kind in ("unknowncode", "nocode"):
        return {"k": kind, "msg": m}
    if kind == "empty":
        return {"k": "none", "raw": ""}
    if kind == "list":
        return {"k": "none", "raw": rng.choice(["[]", "[{\"code\":\"aborted\"}]", "null", "5", "\"aborted\""])}
    return {"k": "none", "raw": rng.choice(HTMLS)}


WEIRD_BODY = ['{"code":5}', '{"code":["aborted"]}', '{"code":{"a":1}}', '{"code":"aborted","message":5}',
              '{"code":"aborted","message":null}', '{"code":"aborted","details":5}', '{"code":"aborted","details":[5]}',
              '{"code":"aborted","details":["x"]}', '{"code":"aborted","details":[{"type":"a.B","value":"!!!"}]}',
              '{"code":"aborted","details":[{"type":"a.B","value":5}]}', '{"code":"aborted","details":[{"type":5,"value":"AA"}]}',
              '{"code":"aborted","details":{"a":1}}', '{"code":"aborted","details":[{"type":"","value":""}]}',
              '{"code":"aborted","details":[null]}', '{"code":"aborted","details":"x"}', '{"code":true}', '{"code":1.5}']
WEIRD_END = ['[]', 'null', '5', '"x"', '', '{', '{"error":5}', '{"error":"x"}', '{"error":[1]}', '{"metadata":5,"error":{"code":"aborted"}}',
             '{"error":{"code":5}}', '{"error":{"code":["a"]}}', '{"error":{"code":"aborted","details":[5]}}',
             '{"error":{"code":"aborted","details":[{"type":"a","value":"!"}]}}', '{"metadata":{"a":"b"},"error":{}}',
             '{"metadata":{"a":5},"error":{"code":"aborted"}}', '{"metadata":{"a":[5]},"error":{"code":"aborted"}}',
             '{"metadata":{"":["x"]},"error":{"code":"aborted"}}', '{"metadata":{"bad key":["x"]},"error":{"code":"aborted"}}',
             '{"metadata":{"a":["x\\ny"]},"error":{"code":"aborted"}}', '{"error":{"code":"aborted","message":{"a":1}}}']
WEIRD_GRPC = [[["grpc-status", "abc"]], [["grpc-status", ""]], [["grpc-status", "-1"]], [["grpc-status", "17"]], [["grpc-status", "99999999999"]],
              [["grpc-status", "3"], ["grpc-message", "%"]], [["grpc-status", "3"], ["grpc-message", "%zz"]],
              [["grpc-status", "3"], ["grpc-message", "%ff%fe"]], [["grpc-status", "3"], ["grpc-status-details-bin", "!!!"]],
              [["grpc-status", "3"], ["grpc-status-details-bin", "A"]], [["grpc-status", "3"], ["grpc-status-details-bin", "//8"]],
              [["grpc-status", "3"], ["grpc-status-details-bin", ""]], [["grpc-status", "03"]], [["grpc-status", " 3"]]]
CT_BAD = ["text/html", "", "application/protobuf", "application/grp", "text/plain; charset=utf-8", "xapplication/grpc"]


def half_of(w):
    """the code of a malformed error that names one; what names no code of the protocol counts as unavailable"""
    try:
        d = json.loads(w)
    except ValueError:
        return None
    if not isinstance(d, dict) or "code" not in d:
        return None
    return d["code"] if d["code"] in CODES else "unavailable"


def half_end(w):
    if '"error":{}' in w:
        return {"k": "free", "code": "", "msg": ""}     # an error object that names nothing may be read as no error at all
    try:
        e = json.loads(w)
    except ValueError:
        e = None
    if isinstance(e, dict) and "metadata" not in e and isinstance(e.get("error"), dict) and e["error"].get("code") in CODES:
        return {"k": "half", "code": e["error"]["code"], "msg": ""}
    return {"k": "any", "code": "", "msg": ""}


def half_grpc(kv):
    code = {"3": "invalid_argument", "03": "invalid_argument", " 3": "invalid_argument"}.get(kv[0][1], "unknown")
    if kv[0][1] == "":
        return {"k": "any", "code": "", "msg": ""}
    return {"k": "half", "code": code, "msg": ""}


def classify(printed, rng, n):
    pr = list(printed)
    if n and len(pr) > n:
        pr = rng.sample(pr, n)
    out = []
    for p in pr:
        plain = p["proto"] == "connect" and p["kind"] == "unary"
        s = {"api": p["api"], "proto": p["proto"], "kind": p["kind"], "reqs": [1], "status": p["status"], "ctype": p["ctype"],
             "enc": {"none": "", "ok": "toy", "unknown": "zz"}[p["enc"]]}
        if p["ctype"] == "bad":
            s["ctv"] = rng.choice(CT_BAD)
            if p["proto"] != "connect" and s["ctv"] == "application/protobuf":
                s["ctv"] = "text/html"
            if plain and s["ctv"].startswith("application/"):
                s["ctv"] = "text/html"
        if p["ctype"] == "json" and rng.random() < .3 and plain:
            s["ctv"] = rng.choice(["application/json; charset=utf-8", "Application/JSON", "application/json;charset=utf-8"])
        if p["ctype"] == "ok" and plain and rng.random() < .2:
            s["ctv"] = rng.choice(["application/raw; charset=utf-8", "Application/RAW"])
        # gRPC content types without a codec name mean binary Protobuf
        if p["proto"] != "connect" and rng.random() < .4:
            bare = "application/grpc" + ("-web" if p["proto"] == "grpcweb" else "")
            if p["ctype"] == "ok":
                s["codec"] = "proto"
                if rng.random() < .6:
                    s["ctv"] = bare
            elif p["ctype"] == "codec":
                s["ctv"] = bare
        if p["status"] != 200:
            s["body"] = body_of(p["body"], rng)
            s["cuts"] = rng.choice([[], [1], [3, 9]])
        elif plain:
            s["msg"] = {"id": 1, "len": rng.choice([0, 1, 7, 300])}
            s["cuts"] = rng.choice([[], [1], [0, 3]])
        else:
            s["frames"] = [{"id": 1, "len": 3, "flag": 0}]
            put_term(s, term(rng, "ok", p["proto"]), rng)
        out.append(s)
    # shapes no well-behaved peer sends: only the exception type and ending are specified
    for api in APIS:
        for i, w in enumerate(WEIRD_BODY):
            for proto, kind in (("connect", "unary"), ("connect", "server"), ("grpc", "unary"), ("grpcweb", "bidi")):
                out.append({"api": api, "proto": proto, "kind": kind, "reqs": [1], "status": rng.choice([400, 403, 404, 500, 503]),
                            "ctype": "json", "body": {"k": "half", "code": half_of(w), "raw": w}})
        for w in WEIRD_END:
            for kind in ("client", "server"):
                out.append({"api": api, "proto": "connect", "kind": kind, "reqs": [1],
                            "frames": [{"id": 1, "len": 1, "flag": 0},
                                       {"end": {"k": "raw", "raw": w, "cls": half_end(w)}, "flag": 0}]})
        for w in WEIRD_GRPC:
            for proto in ("grpc", "grpcweb"):
                for nf in (0, 1):
                    s = {"api": api, "proto": proto, "kind": rng.choice(["unary", "bidi"]), "reqs": [1],
                         "frames": [{"id": 1, "len": 1, "flag": 0}] * nf}
                    put_term(s, {"k": "raw", "kv": w, "cls": half_grpc(w)}, rng)
                    out.append(s)
        for w in ("nocolon\r\n", "\r\n\r\n", "grpc-status\r\n", "\x00\r\n", "grpc-status: 3\n", ": 3\r\n", "bad key: 1\r\ngrpc-status: 3\r\n"):
            out.append({"api": api, "proto": "grpcweb", "kind": "server", "reqs": [1],
                        "frames": [{"end": {"k": "raw", "kv": [["x", w]], "sep": ": ", "cls": {"k": "any", "code": "", "msg": ""}}, "flag": 0}]})
    # reset whose trailers are malformed
        for w in WEIRD_GRPC:
            for kind in ("unary", "server"):
                out.append({"api": api, "proto": "grpc", "kind": kind, "reqs": [1], "frames": [{"id": 1, "len": 1, "flag": 0}],
                            "trl": {"k": "raw", "kv": w, "cls": {"k": "any", "code": "", "msg": ""}}, "rst_trailers": True,
                            "cuts": [6], "fault": {"k": rng.choice(["INTERNAL_ERROR", "REFUSED_STREAM", "CANCEL"]), "at": rng.choice([1, 2])}})
    return out


def rand(rng, focus=""):
    api, proto = rng.choice(APIS), rng.choice(PROTOS)
    kind = rng.choice(["unary", "client", "server", "server", "bidi", "bidi"])
    plain = proto == "connect" and kind == "unary"
    s = {"api": api, "proto": proto, "kind": kind, "send": rng.choice(["", "", "toy", "toy2"]),
         "accept": rng.choice([["toy", "toy2"], ["toy2"], [], ["toy2", "toy"]]),
         "enc": rng.choice(["", "identity", "toy", "toy", "toy2", "zz"] if rng.random() < .5 else ["", "toy"]),
         "reqs": [rng.choice([0, 1, 3, 300])] if kind in ("unary", "server") else
         [rng.choice([0, 1, 3, 70000]) for _ in range(rng.choice([0, 1, 2, 4]))]}
    if rng.random() < .15:
        s["codec"] = "proto"
        if proto != "connect" and rng.random() < .7:
            s["ctv"] = "application/grpc" + ("-web" if proto == "grpcweb" else "")
    if focus == "comp" and rng.random() < .7:
        s["enc"] = rng.choice(["toy", "toy2"])
    single_ = kind in ("unary", "client")
    limit = rng.choice([0, 1, 5, 16, 255, 1000, 65536]) if focus == "limit" or rng.random() < .15 else -1
    if limit >= 0:
        s["limit"] = limit
    if plain:
        ln = max(0, limit + rng.choice([-1, 0, 0, 1, 2])) if limit >= 0 else rng.choice([0, 1, 5, 300, 70000])
        s["msg"] = {"id": 1, "len": ln}
        if rng.random() < .1:
            s["msg"]["bad"] = True
            if limit >= 0:
                s["msg"].pop("bad")
    else:
        n = 1 if single_ and rng.random() < .7 else rng.choice([0, 1, 2, 3, 5, 8])
        frames = []
        big = rng.random() < .1
        same = rng.random() < .15  # the very same message again
        for j in range(n):
            ln = rng.choice([0, 0, 1, 2, 5, 40]) if not big else rng.choice([255, 256, 65535, 65536, 70000])
            if limit >= 0:
                ln = max(0, limit + rng.choice([-1, 0, 0, 0, 1, 3]))
            f = {"id": j + 1, "len": ln, "flag": 0}
            if s["enc"] in ("toy", "toy2"):
                f["flag"] = rng.choice([0, 1, 1])
            elif rng.random() < .03:
                f["flag"] = 1
            if rng.random() < .03 and limit < 0:
                f["bad"] = "decode"
            if f["flag"] and s["enc"] in s["accept"] and s["enc"] in ("toy", "toy2"):
                if rng.random() < .04:
                    f["bad"] = "decomp"
                elif limit >= 0 and rng.random() < .3:
                    f["bomb"] = limit + rng.choice([0, 1, 2, 50])
                    if not f["bomb"]:
                        del f["bomb"]
            frames.append(dict(frames[0]) if same and frames else f)
        s["frames"] = frames
        put_term(s, term(rng, rng.choice(["ok", "ok", "ok", "err", "err", "missing"]), proto), rng)
        if proto != "connect" and rng.random() < .25 and "hst" not in s:
            # a status among the headers, although a body follows
            s["hst"] = term(rng, rng.choice(["ok", "ok", "err"]), proto)
            if rng.random() < .6:
                s.pop("trl", None)
                s["frames"] = frames
        if s["frames"] and "end" in s["frames"][-1]:
            if s["enc"] in ("toy", "toy2") and s["enc"] in s["accept"] and rng.random() < .4:
                s["frames"][-1]["flag"] = 1
            if rng.random() < .15:
                s["frames"].append(rng.choice([{"id": 9, "len": 2, "flag": 0}, {"end": {"k": "ok"}, "flag": 0},
                                               {"end": {"k": "err", "code": "aborted", "msg": "late"}, "flag": 0}]))
        if rng.random() < .08:
            s["tail"] = rng.choice([1, 3, 4, 5, 6, 9])
    total = 40 + sum(10 + f.get("len", 30) for f in s.get("frames", []))
    s["cuts"] = sorted(rng.randrange(min(total, 200000)) for _ in range(rng.choice([0, 0, 1, 2, 3, 8])))
    if rng.random() < .08 and total < 150:
        s["cuts"] = list(range(total))
    if rng.random() < .1:
        s["gap"] = True
    if rng.random() < (.5 if focus == "time" else .15):
        s["timeout"] = rng.choice([1, 10, 100, 1000, 60000, 86400000])
        if rng.random() < .6:
            left = s["timeout"]
            s["delays"] = []
            for _ in range(rng.randrange(1, 4)):
                d = max(0, int(left * rng.choice([.1, .3, .5])))
                left -= d
                s["delays"].append([rng.randrange(5), d])
        elif rng.random() < .5:
            s["delays"] = [[rng.randrange(4), s["timeout"] + rng.choice([1, 50, 5000])]]
    if rng.random() < (.4 if focus == "time" else .1):
        k = rng.choice(["net", "hang", "cancel", "CANCEL", "REFUSED_STREAM", "INTERNAL_ERROR", "NO_ERROR", "ENHANCE_YOUR_CALM"])
        if k == "hang" and "timeout" not in s:
            s["timeout"] = 77
        if not (k == "cancel" and api == "sync"):
            s["fault"] = {"k": k, "at": rng.randrange(5)}
            if k != "hang":
                s.pop("delays", None)
    if api == "async" and kind in ("client", "bidi") and rng.random() < (.2 if focus == "time" else .03) and "fault" not in s:
        s["reqs"] = [1, 2, 3][:rng.randrange(1, 4)]
        s["req_hang"] = rng.randrange(len(s["reqs"]))
        if rng.random() < .5:
            s["timeout"] = rng.choice([5, 333, 9000])
        else:
            s.pop("timeout", None)
            s["cancel_at"] = rng.choice([0, 7, 400])
        s.pop("delays", None)
    elif api == "async" and focus == "time" and rng.random() < .1:
        s["cancel_at"] = rng.choice([0, 1, 5, 50, 500])
    if kind in ("server", "bidi") and rng.random() < .12:
        s["take"] = rng.randrange(4)
    if "fault" not in s and "take" not in s and "cancel_at" not in s and "timeout" not in s and rng.random() < .08:
        s["close_fail"] = True
    if kind in ("client", "bidi") and rng.random() < .1:
        s["read_reqs"] = rng.randrange(3)
    return s


def close_fails(rng):
    """the response cannot be closed, typically because it was not read to its end"""
    out = []
    for api in APIS:
        for proto in PROTOS:
            for kind in ("unary", "client", "server", "bidi"):
                if proto == "connect" and kind == "unary":
                    continue
                for bad in ("mark", "decomp", "decode", "limit", "limitz", "term", ""):
                    for n in (0, 1):
                        if bad == "" and n == 0:
                            continue
                        s = {"api": api, "proto": proto, "kind": kind, "reqs": [2], "enc": "" if bad == "mark" else "toy", "close_fail": True,
                             "frames": [{"id": j + 1, "len": 3, "flag": 0} for j in range(n)]}
                        f = {"id": 7, "len": 4, "flag": 0 if bad in ("decode", "limit") else 1}
                        if bad in ("decomp", "decode"):
                            f["bad"] = bad
                        if bad.startswith("limit"):
                            s["limit"] = 3
                        if bad not in ("term", ""):
                            s["frames"].append(f)
                            s["frames"] += [{"id": 8, "len": 2, "flag": 0}] * rng.randrange(2)
                        put_term(s, term(rng, "err" if bad == "term" else "ok", proto), rng)
                        s["cuts"] = rng.choice([[], [8], [8, 14, 17], [5, 8, 13, 16, 22]])
                        out.append(s)
    return out


def large(rng, sizes):
    out = []
    for n in sizes:
        for api in APIS:
            for plain in (False, True):
                if plain:
                    out.append({"api": api, "proto": "connect", "kind": "unary", "reqs": [n], "msg": {"id": 1, "len": n},
                                "cuts": sorted(rng.randrange(n) for _ in range(2))})
                    continue
                s = {"api": api, "proto": rng.choice(PROTOS), "kind": rng.choice(["server", "bidi", "client"]), "enc": "toy",
                     "frames": [{"id": 1, "len": n, "flag": rng.choice([0, 1])}], "reqs": [n], "send": rng.choice(["", "toy"]),
                     "cuts": sorted(rng.randrange(n) for _ in range(3))}
                put_term(s, term(rng, "ok", s["proto"]), rng)
                out.append(s)
    return out


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    m = 8 if big else 1
    out = []
    if pid in ("C02", "C05", "C26"):
        out += chunk(tlcgen("Gen_Client", "Gen_Client_chunk.cfg"), rng, None if big else (4000 if pid == "C02" else 500))
    if pid in ("C04", "C02"):
        out += single(tlcgen("Gen_Client", "Gen_Client_single.cfg"), rng)
    if pid == "C12":
        out += fault(tlcgen("Gen_Client", "Gen_Client_fault%s.cfg" % ("_big" if big else "")), rng)
    if pid == "C06":
        out += classify(tlcgen("Gen_Client", "Gen_Client_class.cfg"), rng, None if big else 5000)
    if pid in ("C12", "C10", "C06"):
        out += close_fails(rng)
    if pid in ("C02", "C10"):
        out += large(rng, [1 << 20, (4 << 20) + 1, (16 << 20) + 1] + ([(1 << 24) - 1, (33 << 20)] if big else []))
    focus = {"C10": "limit", "C09": "comp", "C12": "time"}.get(pid, "")
    n = {"C02": 1500, "C10": 1500, "C09": 1500, "C12": 1500, "C06": 800}.get(pid, 500) * m
    out += [rand(rng, focus) for _ in range(n)]
    if pid == "C12":
        timed = [s for s in out if s["api"] == "async" and s.get("timeout")]
        out += [s | {"backport": True} for s in rng.sample(timed, min(len(timed), 600 * m))]
    return out
