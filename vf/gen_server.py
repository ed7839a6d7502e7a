"""Scenarios for RpcServer: TLC-enumerated scripts decorated with flavour/protocol, plus seeded random ones."""
CODES = ["canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists",
         "permission_denied", "resource_exhausted", "failed_precondition", "aborted", "out_of_range",
         "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated"]
MSGS = ["", "boom", "a b", "100%", "%41", "caf\u00e9 \u2603", "line1\nline2", "\U0001f600 ok", "tab\there", "a+b=c&d",
        "\"quoted\" \\ back", "trail ", " lead", "\u0000nul", "x" * 300]
APIS = ("asgi", "wsgi")
PROTOS = ("connect", "grpc", "grpcweb")


def flavour(i):
    return APIS[i % 2], PROTOS[(i // 2) % 3]


def end_ops(end, rng, kind):
    if end == "raise":
        return [["raise", rng.choice(CODES), rng.choice(MSGS)]]
    if end == "rawraise":
        return [["rawraise", rng.choice(["ValueError", "RuntimeError", "OSError", "TimeoutError", "StopError"]),
                 rng.choice(["", "bad thing", "caf\u00e9 %"])]]
    if end == "baseraise":
        return [["baseraise", rng.choice(["", "exit"])]]
    return [] if kind in ("server", "bidi") else [["ret", 40 + rng.randrange(3), rng.choice([0, 1, 7])]]


def resp(rng, i):
    return ["yield", 20 + i, rng.choice([0, 0, 1, 2, 9])]


def chunk_scns(printed, rng, n=None):
    pr = list(printed)
    if n is not None and len(pr) > n:
        pr = rng.sample(pr, n)
    out = []
    for i, p in enumerate(pr):
        api, proto = flavour(i)
        kind = ("bidi", "client")[(i // 6) % 2]
        s = {"api": api, "proto": proto, "kind": kind, "frames": p["frames"], "tail": p["tail"], "cuts": p["cuts"],
             "comp": "toy", "idle": True, "script": [["readall"]] + end_ops("done", rng, kind)}
        if rng.random() < .3:
            s["sep_end"] = True
        if rng.random() < .3 and kind == "bidi":
            s["script"] = [["echo"]]
        out.append(s)
    return out


def single_scns(printed, rng, n):
    pr = rng.sample(list(printed), min(n, len(list(printed))))
    out = []
    for i, p in enumerate(pr):
        api, proto = flavour(i)
        kind = "server" if proto == "connect" or (i // 6) % 2 else "unary"
        s = {"api": api, "proto": proto, "kind": kind, "frames": p["frames"], "tail": p["tail"], "cuts": p["cuts"],
             "comp": "toy", "idle": True,
             "script": ([resp(rng, 0)] if kind == "server" else []) + end_ops("done", rng, kind)}
        if rng.random() < .4:
            s["sep_end"] = True
        out.append(s)
    # surplus and missing messages with every arrival pattern
    for api in APIS:
        for proto in PROTOS:
            for kind in ("server", "unary"):
                if kind == "unary" and proto == "connect":
                    continue
                for cnt in (0, 1, 2, 3):
                    for cuts in ([], [5], [6], [7, 7], [12, 13]):
                        for sep in (False, True):
                            same = rng.random() < .5
                            out.append({"api": api, "proto": proto, "kind": kind, "cuts": cuts, "sep_end": sep,
                                        "frames": [{"id": 1 if same else j + 1, "len": cnt % 3 if same else (j + cnt) % 3,
                                                    "flag": 0} for j in range(cnt)],
                                        "script": ([resp(rng, 0)] if kind == "server" else [])
                                        + end_ops("done", rng, kind)})
    return out


def script_scns(printed, rng, n=None):
    pr = list(printed)
    if n is not None and len(pr) > n:
        pr = rng.sample(pr, n)
    out = []
    for i, p in enumerate(pr):
        for api in APIS:
            for proto in PROTOS:
                kind = rng.choice(["server", "bidi"])
                ops, y = [], 0
                for o in p["ops"]:
                    if o == "yield":
                        ops.append(resp(rng, y))
                        y += 1
                    else:
                        ops.append([o, rng.choice(["x-a", "x-b", "X-C"]), rng.choice(["1", "2", "v v"])])
                ops += end_ops("baseraise" if p["end"] == "rawraise" and rng.random() < .2 else p["end"], rng, kind)
                s = {"api": api, "proto": proto, "kind": kind, "frames": [{"id": 1, "len": 2, "flag": 0}],
                     "script": ([["readall"]] if kind == "bidi" and rng.random() < .5 else []) + ops,
                     "accept": rng.choice(["", "toy", "toy2, toy"])}
                if api == "asgi" and rng.random() < .2:
                    s["send_sleep"] = rng.randrange(1, 4)
                out.append(s)
                if p["end"] != "done" and "yield" not in p["ops"] or rng.random() < .15:
                    k2 = "client" if proto == "connect" else rng.choice(["client", "unary"])
                    o2 = [o for o in ops if o[0] != "yield"]
                    if p["end"] == "done":
                        o2 = o2 + [["ret", 41, rng.choice([0, 3])]]
                    out.append(dict(s, kind=k2, script=([["readall"]] if k2 == "client" else []) + o2))
    return out


def point_scns(printed, rng):
    out = []
    for p in printed:
        for proto in PROTOS:
            yields = [resp(rng, j) for j in range(p["nyield"])]
            fin = end_ops(p["after"], rng, "bidi")
            frames = [{"id": j + 1, "len": 3, "flag": 0} for j in range(p["nreq"])]
            act = ["sig"] if p["what"] == "disc" else ["cancel"]
            pos = min(p["pos"], len(yields))
            base = {"api": "asgi", "proto": proto, "frames": frames, "slow_exit": p["slow"], "obj": rng.random() < .3}
            # during the handler (server stream: response phase)
            out.append(dict(base, kind="server", frames=[{"id": 1, "len": 3, "flag": 0}],
                            script=yields[:pos] + [act] + yields[pos:] + fin))
            fault = {"send_cancel" if p["what"] == "cancel" else "send_fail": 1 + p["pos"]}
            out.append(dict(base, kind="server", frames=[{"id": 1, "len": 3, "flag": 0}], script=yields + fin, **fault))
            out.append(dict(base, kind="bidi", script=yields + fin, **fault))
            out.append(dict(base, kind="bidi", script=[["echo"]] + fin, **fault))
            out.append(dict(base, kind="client", script=fin or [["ret", 41, 2]], **fault))
            out.append(dict(base, kind="bidi", script=yields[:pos] + [act] + yields[pos:] + fin))
            # during request upload
            key = "disc_at" if p["what"] == "disc" else "cancel_at"
            cuts = [8 * (j + 1) for j in range(p["nreq"] - 1)]
            for kind in ("bidi", "client", "server", "unary"):
                if kind == "unary" and proto == "connect":
                    continue
                s = dict(base, kind=kind, cuts=cuts)
                s[key] = min(p["pos"], p["nreq"])
                if kind == "bidi":
                    s["script"] = yields[:1] + [["readall"]] + yields[1:] + fin
                elif kind == "client":
                    s["script"] = [["readall"]] + (fin or [["ret", 41, 2]])
                elif kind == "server":
                    s["script"] = yields + fin
                else:
                    s["script"] = fin or [["ret", 41, 2]]
                out.append(s)
                if kind in ("bidi", "client") and rng.random() < .5:
                    out.append(dict(s, script=[["readall_catch"]] + s["script"][1:] if kind == "client" else
                                    [["readall_catch"]] + yields + fin))
        # WSGI server drops the response early
        for proto in PROTOS:
            if p["what"] == "disc" and p["nyield"]:
                out.append({"api": "wsgi", "proto": proto, "kind": rng.choice(["server", "bidi"]),
                            "frames": [{"id": 1, "len": 3, "flag": 0}], "close_after": p["pos"], "obj": rng.random() < .4,
                            "script": [resp(rng, j) for j in range(p["nyield"])] + end_ops(p["after"], rng, "bidi")})
    return out


def rand_scn(rng, focus=""):
    api = rng.choice(APIS)
    proto = rng.choice(PROTOS)
    kind = rng.choice(["server", "bidi", "client"] + (["unary"] if proto != "connect" else []))
    comp = rng.choice(["identity", "identity", "toy", "toy", "toy2", "nope"])
    if focus == "limit":
        comp = rng.choice(["identity", "toy"])
    if focus == "comp":
        comp = rng.choice(["toy", "toy2", "nope", "identity"])
    single = kind in ("unary", "server")
    n = 1 if single and rng.random() < .75 else rng.choice([0, 1, 2, 2, 3, 5, 8])
    big = rng.random() < .15
    limit = -1
    if focus == "limit" or rng.random() < .2:
        limit = rng.choice([0, 1, 5, 16, 255, 1000, 65536])
    frames = []
    for j in range(n):
        ln = rng.choice([0, 0, 1, 2, 3, 5, 17, 100])
        if big:
            ln = rng.choice([255, 256, 257, 4091, 4096, 4097, 65535, 65536, 70000])
        if limit >= 0:
            ln = max(0, limit + rng.choice([-1, 0, 0, 0, 1, 2, 10] if rng.random() < .8 else [-limit]))
        f = {"id": j + 1, "len": ln, "flag": 0}
        if comp in ("toy", "toy2"):
            f["flag"] = rng.choice([0, 1, 1])
        elif rng.random() < .04:
            f["flag"] = 1
        if rng.random() < .04:
            f["bad"] = "decode"
        if f["flag"] and comp in ("toy", "toy2"):
            if rng.random() < .04:
                f["bad"] = "decomp"
            elif rng.random() < (.4 if focus == "limit" else .1) and limit >= 0:
                f["bomb"] = limit + rng.choice([0, 1, 2, 50])
                f.pop("bad", None)
                if not f["bomb"]:
                    del f["bomb"]
        frames.append(f)
    if n > 1 and rng.random() < .15:  # the very same message again
        frames = [dict(f) for f in frames[:1] * n]
    total = sum(5 + f["len"] + 5 for f in frames)
    k = rng.choice([0, 0, 1, 2, 3, 6])
    cuts = []
    pos = 0
    ends = []
    for f in frames:
        pos += 5 + f["len"] + (5 if f["flag"] else 0)
        ends.append(pos)
    for _ in range(k):
        if ends and rng.random() < .5:
            cuts.append(max(0, rng.choice(ends) + rng.choice([-1, 0, 1, 2, 3, 4, 5])))
        else:
            cuts.append(rng.randrange(total + 1))
    if rng.random() < .08 and total < 120:
        cuts = list(range(total))
    ops = []
    for _ in range(rng.randrange(4)):
        ops.append([rng.choice(["hdr", "trl"]), rng.choice(["x-a", "X-b", "x-Custom-Long"]),
                    rng.choice(["1", "two", "a,b", "x y"])])
    if kind in ("client", "bidi"):
        r = rng.random()
        if r < .7:
            ops.insert(rng.randrange(len(ops) + 1), ["readall"])
        elif r < .85:
            ops.insert(rng.randrange(len(ops) + 1), ["read"])
        elif r < .95 and kind == "bidi":
            ops.insert(rng.randrange(len(ops) + 1), ["echo"])
    if kind in ("server", "bidi"):
        for j in range(rng.choice([0, 1, 2, 3, 6])):
            ln = rng.choice([0, 1, 2, 30]) if not big else rng.choice([255, 256, 65536, 70000])
            ops.insert(rng.randrange(len(ops) + 1), ["yield", 20 + j, ln])
    ops += end_ops(rng.choice(["done", "done", "done", "done", "done", "raise", "raise", "rawraise", "rawraise", "baseraise"]), rng, kind)
    s = {"api": api, "proto": proto, "kind": kind, "obj": rng.random() < .15, "frames": frames, "comp": comp, "cuts": cuts, "script": ops,
         "accept": rng.choice(["", "", "toy", "toy2", "nope,toy", "toy2, toy", " toy ", "nope", "identity,toy", "identity"]),
         "limit": limit, "idle": rng.random() < .6, "sep_end": rng.random() < .4}
    if rng.random() < .1:
        s["tail"] = rng.choice([1, 3, 4, 5, 6, 9])
    if comp == "identity" and rng.random() < .3:
        s["explicit_identity"] = True
    if api == "asgi":
        if rng.random() < .15:
            s["send_sleep"] = rng.randrange(1, 5)
        if rng.random() < .1:
            s["sparse"] = True
    else:
        s["clen"] = rng.random() < .5
        s["http"] = rng.choice(["HTTP/1.1", "HTTP/2"])
    return s


def large_scns(rng, sizes):
    """No limit is configured: no size is too large (and none is treated differently)."""
    out = []
    for i, n in enumerate(sizes):
        for api in APIS:
            proto = PROTOS[(i + rng.randrange(3)) % 3]
            kind = rng.choice(["bidi", "client", "server"])
            fl = rng.choice([0, 1])
            out.append({"api": api, "proto": proto, "kind": kind, "frames": [{"id": 1, "len": n, "flag": fl}] +
                        ([{"id": 2, "len": 3, "flag": 0}] if kind != "server" else []), "comp": "toy", "cuts": sorted(rng.randrange(n) for _ in range(3)),
                        "accept": rng.choice(["", "toy"]), "idle": True,
                        "script": ([["readall"]] if kind != "server" else []) +
                        ([["ret", 41, 3]] if kind == "client" else [["yield", 20, rng.choice([2, n + 1])], ["yield", 21, 1]])})
    return out


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    sfx = "_big" if big else ""
    m = 6 if big else 1
    out = []
    if pid in ("C01", "C22", "C09", "C26"):
        k = None if pid == "C01" else 300
        out += chunk_scns(tlcgen("Gen_Server", "Gen_Server_chunk.cfg"), rng, k)
        if pid == "C01":
            out += chunk_scns(tlcgen("Gen_Server", "Gen_Server_chunk2.cfg"), rng, None if big else 1500)
    if pid == "C04":
        out += single_scns(tlcgen("Gen_Server", "Gen_Server_chunk2.cfg"), rng, 8000 if big else 900)
    if pid in ("C03", "C08", "C05", "C24"):
        out += script_scns(tlcgen("Gen_Server", "Gen_Server_script%s.cfg" % sfx), rng, None if pid == "C03" else 40)
    if pid in ("C13", "C03"):
        out += point_scns(tlcgen("Gen_Server", "Gen_Server_points%s.cfg" % sfx), rng)
    if pid in ("C10", "C01", "C03"):
        out += large_scns(rng, [1 << 20, (4 << 20) + 1, (16 << 20) + 1] + ([(1 << 24) - 1, (33 << 20), (64 << 20) + 1] if big else []))
    focus = {"C10": "limit", "C09": "comp"}.get(pid, "")
    n = {"C01": 900, "C03": 700, "C04": 300, "C13": 300, "C10": 1500, "C09": 1200}.get(pid, 300) * m
    out += [rand_scn(rng, focus) for _ in range(n)]
    return out
