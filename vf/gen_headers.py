def fill(o, rng, names):
    o = dict(o)
    o["c"] = rng.randrange(4)
    o.setdefault("v", rng.randrange(1, 8))
    if o["op"] in ("new", "newmap", "update"):
        k = rng.randrange(0, 4)
        m = [[rng.choice(names), rng.randrange(4), rng.randrange(1, 8)] for _ in range(k)]
        if o["op"] == "newmap":
            seen, l = set(), []
            for q in m:
                if q[0] not in seen:
                    seen.add(q[0])
                    l.append(q)
            m = l
        o["m"] = m
    return o


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_Headers", "Gen_Headers_big.cfg" if big else "Gen_Headers.cfg")
    out = [{"ops": [fill({"op": "new", "n": 1}, rng, [1, 2])] * (i % 2) + [fill(o, rng, [1, 2]) for o in p["ops"]]} for i, p in enumerate(pr)]
    ops = ["add", "add", "add", "set", "del", "pop", "popitem", "setdefault", "update", "clear", "new", "newmap", "get", "getd", "getall", "in", "inother"]
    for _ in range(3000 if big else 600):
        names = rng.sample(range(1, 7), rng.randrange(1, 7))
        out.append({"ops": [fill({"op": rng.choice(ops if rng.random() < .5 else ops[:6]), "n": rng.choice(names)}, rng, names) for _ in range(rng.randrange(1, 40))]})
    return out
