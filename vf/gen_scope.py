PROTOS = ("connect", "grpc", "grpcweb")


def conc(ops, rng, nw=2):
    """fills in the kinds and outcomes of calls"""
    out = []
    for w, o in ops:
        if o == "call":
            out.append([w, "call", rng.choice(["unary", "unary", "client"]), rng.choice(["ok", "ok", "ok", "err", "lost"]), rng.random() < .2])
        elif o == "open":
            out.append([w, "open", rng.choice(["server", "bidi", "hunary", "hserver"]), rng.choice(["ok", "ok", "err", "lost"]), False])
        elif o == "exitx":
            out.append([w, o, rng.choice(["boom", "gen", "cancel", "kbd", "stop", "exit", "err", "time", "base"])])
        else:
            out.append([w, o])
    return out


def close(ops, nw):
    """lets every open call of a sequence come to its end"""
    op = {}
    for o in ops:
        if o[1] == "open":
            op[o[0]] = True
        elif o[1] in ("end", "drop"):
            op[o[0]] = False
    ops = ops + [[w, "end"] for w in sorted(op) if op[w]]
    for i, o in enumerate(ops):
        # a worker inside a call does nothing else
        if o[1] == "open" and o[2].startswith("h") and next(p for p in ops[i + 1:] if p[0] == o[0])[1] not in ("end", "drop"):
            o[2] = o[2][1:].replace("unary", "bidi")
    return ops


def rand(rng):
    nw = rng.choice([1, 2, 2, 3, 4])
    depth, opn, ops = [0] * (nw + 1), [False] * (nw + 1), []
    live = {1}
    forked = set()
    fork = rng.random() < .4
    if not fork:
        live = set(range(1, nw + 1))
    for _ in range(rng.randrange(4, 22)):
        w = rng.choice(sorted(live))
        if fork and len(live) < nw and rng.random() < .25 and not opn[w]:
            c = len(live) + 1
            ops.append([w, "fork", c])
            live.add(c)
            forked.add(c)
            continue
        ch = []
        if opn[w]:
            ch = ["end", "end", "drop", "call"]
        else:
            if depth[w] > 0 or w not in forked:
                ch += ["call", "call", "open"]
            if depth[w] < 4:
                ch += ["enter", "enter"]
            if depth[w]:
                ch += ["exit", "exitx"]
        o = rng.choice(ch)
        depth[w] += {"enter": 1, "exit": -1, "exitx": -1}.get(o, 0)
        opn[w] = o == "open" or (opn[w] and o not in ("end", "drop"))
        ops += conc([[w, o]], rng)
    return nw, ops


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_ResponseScope", "Gen_ResponseScope_big.cfg" if big else "Gen_ResponseScope.cfg")
    pr.sort(key=lambda p: p["ops"])
    out = []
    for i, p in enumerate(pr):
        if not big and i % 2 and rng.random() < .3:
            continue
        out.append({"flav": ("async", "sync")[i % 2], "proto": PROTOS[(i // 2) % 3], "nw": 2, "ops": close(conc(p["ops"], rng), 2)})
    for _ in range(12000 if big else 2500):
        nw, ops = rand(rng)
        out.append({"flav": rng.choice(["async", "async", "sync"]), "proto": rng.choice(PROTOS), "nw": nw, "ops": close(ops, nw)})
    return out
