TEXTS = ["boom", "", "caf\u00e9 \u2603", "two\nlines", "x" * 300]


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_Lifespan", "Gen_Lifespan_big.cfg" if big else "Gen_Lifespan.cfg")
    pr.sort(key=lambda p: p["ops"])
    out = []

    def conf():
        kind = rng.choice(["plain", "gen", "gen", "gen"])
        s = {"kind": kind, "gstart": rng.choice(["ok", "ok", "ok", "raise", "empty"]), "gstop": rng.choice(["ok", "ok", "ok", "raise", "swallow"]),
             "slow": rng.choice(["", "", "start", "stop", "both"]), "svc": rng.choice(["obj", "obj", "falsy", "none", "zero"]),
             "empty": rng.random() < .12, "exc": rng.choice(["RuntimeError", "ValueError", "KeyError", "ConnectError", "StopAsync"]),
             "msg": rng.choice(TEXTS), "kindreq": rng.choice(["unary", "stream", "get"])}
        if s["exc"] == "StopAsync":
            s["exc"] = "OSError"
        return s
    for p in pr:
        for _ in range(2 if big else 1):
            out.append(dict(conf(), ops=p["ops"]))
    for _ in range(8000 if big else 1500):
        ops = ["req"] * rng.randrange(2) + ["start"] + rng.choice([[], ["go"], ["req", "go"]])
        for _ in range(rng.randrange(4)):
            ops.append(rng.choice(["req", "req", "other", "ws", "slowreq", "fin"]))
        if rng.random() < .8:
            ops += ["stop"] + rng.choice([["go"], ["req", "go"], [], ["fin"]])
        if rng.random() < .3:
            ops += ["again", "start", "req", "stop"]
        out.append(dict(conf(), ops=ops))
    return out
