"""Operation sequences on connectrpc.request.Headers (Headers.tla)."""
from connectrpc.request import Headers

NAMES = {1: ["x-a", "X-A", "X-a", "x-A"], 2: ["x-b", "X-B"], 3: ["content-type", "Content-Type", "CONTENT-TYPE"], 4: ["a", "A"],
         5: ["x-bin", "X-Bin"], 6: ["x-", "X-"]}
BACK = {v[0]: k for k, v in NAMES.items()}
VALS = {1: "v1", 2: "v2", 3: "", 4: "V1", 5: "a,b", 6: "x-a", 7: "v1 "}
VB = {v: k for k, v in VALS.items()}


def E(ev, **kw):
    e = {"ev": ev, "n": 0, "v": 0, "r": 0, "ok": True, "m": [], "single": [], "all": [], "keys": [], "iter": [], "vals": [], "len": 0, "alllen": 0,
         "eq": True, "inall": True, "lower": True}
    e.update(kw)
    return e


def nm(k):
    return BACK.get(k.lower() if isinstance(k, str) else None, 99)


def vl(v):
    return 0 if v is None else VB.get(v, 99)


def run(scn):
    ev = []
    h = Headers()

    def c(op):
        n = op.get("n", 1)
        return NAMES[n][op.get("c", 0) % len(NAMES[n])]

    def pairs(op):
        return [(NAMES[a][k % len(NAMES[a])], VALS[v]) for a, k, v in op["m"]]

    def obs():
        a = list(h.allitems())
        keys = list(h.keys())
        try:
            inall = all(p in h.allitems() for p in a) and ("x-a", "zz") not in h.allitems() and bool(repr(h.allitems()))
        except Exception:
            inall = False
        ev.append(E("obs", all=[[nm(k), vl(v)] for k, v in a], single=[[nm(k), vl(v)] for k, v in h.items()], keys=[nm(k) for k in keys],
                    iter=[nm(k) for k in h], vals=[vl(v) for v in h.values()], len=len(h), alllen=len(h.allitems()),
                    eq=h == dict(h.items()) and h == Headers(dict(h.items())), inall=inall,
                    lower=all(k in BACK for k in keys) and all(k in BACK for k, _ in a)))
    for op in scn["ops"]:
        o = op["op"]
        n = op.get("n", 1)
        v = op.get("v", 1)
        e = E(o, n=n, v=v)
        try:
            if o in ("new", "newmap"):
                p = pairs(op)
                e["m"] = [[a, b] for a, _, b in op["m"]]
                h = Headers(dict(p) if o == "newmap" else (tuple(p) if op.get("c", 0) % 2 else p)) if p or op.get("c", 0) % 2 else Headers()
            elif o == "add":
                h.add(c(op), VALS[v])
            elif o == "set":
                h[c(op)] = VALS[v]
            elif o == "del":
                try:
                    del h[c(op)]
                except KeyError:
                    e["ok"] = False
            elif o == "pop":
                try:
                    e["r"] = vl(h.pop(c(op)))
                except KeyError:
                    e["ok"] = False
            elif o == "popitem":
                try:
                    k, x = h.popitem()
                    e["n"], e["r"] = nm(k), vl(x)
                except KeyError:
                    e["ok"] = False
            elif o == "setdefault":
                e["r"] = vl(h.setdefault(c(op), VALS[v]))
            elif o == "update":
                p = pairs(op)
                e["m"] = [[a, b] for a, _, b in op["m"]]
                k = op.get("c", 0) % 3
                if k == 0:
                    h.update(p)
                elif k == 1:
                    for q in p:
                        h.update({q[0]: q[1]})
                else:
                    for q in p:
                        h.update(Headers([q]))
            elif o == "clear":
                h.clear()
            elif o == "get":
                try:
                    e["r"] = vl(h[c(op)])
                except KeyError:
                    e["ok"] = False
            elif o == "getd":
                e["r"] = vl(h.get(c(op)))
            elif o == "getall":
                e["m"] = [[n, vl(x)] for x in h.getall(c(op))]
            elif o == "in":
                e["ok"] = c(op) in h
            elif o == "inother":
                e["ok"] = any(x in h for x in (1, None, b"x-a", ("x-a", "v1")))
        except Exception as x:
            ev.append(E("crash"))
            continue
        ev.append(e)
        if o not in ("get", "getd", "getall", "in", "inother"):
            obs()
            for q in (1, 2):
                for k in range(2):
                    name = NAMES[q][k]
                    ev.append(E("getall", n=q, m=[[q, vl(x)] for x in h.getall(name)]))
                    ev.append(E("in", n=q, ok=name in h))
    obs()
    ev.append(E("end"))
    return {"cfg": {}, "events": ev}
