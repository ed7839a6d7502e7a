LISTS = [[], [], ["a"], ["a", "b"], ["b", "a"], ["a", "own", "b"], ["own"], ["own", "a"], ["a", "own"]]
FORMS = ["list", "tuple", "gen", "iter", "set1"]


def create(rng, side):
    ints = rng.choice(LISTS)
    form = rng.choice(FORMS)
    if form == "set1" and len(ints) > 1:
        form = "list"
    if not ints and rng.random() < .5:
        form = "absent"
    return {"op": "create", "k": rng.choice(["client", "syncclient"] if side == "Cc" else ["asgi", "wsgi"]), "ints": ints, "form": form,
            "sub": rng.choice(["", "", "own", "init"]), "ownsub": rng.random() < .3, "ownerr": False}


def scn(rng, ops):
    out = []
    for o in ops:
        if o in ("Cc", "Cs"):
            out.append(create(rng, o))
            if rng.random() < .4:
                out.append({"op": "probe", "o": rng.randrange(8)})
        elif o in ("IA", "IB"):
            p = o[1]
            out.append({"op": "instrument", "p": p if rng.random() < .8 else "G", "m": p if rng.random() < .7 else rng.choice("ABG")})
        elif o == "U":
            out.append({"op": "uninstrument"})
        elif o in ("Mc", "Ms"):
            out.append({"op": "import", "m": "client" if o == "Mc" else "server"})
        elif o == "P":
            out.append({"op": "probe", "o": rng.randrange(8)})
    for s in ("Cc", "Cs"):
        c = create(rng, s)
        d = dict(create(rng, s), k={"client": "syncclient", "syncclient": "client", "asgi": "wsgi", "wsgi": "asgi"}[c["k"]])
        out += [c, d]
    return {"ops": out, "new": rng.random() < .3}


def gen(pid, tier, rng, tlcgen):
    big = tier == "thorough"
    pr = tlcgen("Gen_Instrument", "Gen_Instrument_big.cfg" if big else "Gen_Instrument.cfg")
    pr.sort(key=lambda p: p["ops"])
    out = [scn(rng, p["ops"]) for p in pr]
    for _ in range(6000 if big else 700):
        ops, mods = [], set()
        for _ in range(rng.randrange(4, 14)):
            o = rng.choice(["IA", "IB", "IA", "U", "U", "Cc", "Cs", "Mc", "Ms", "P"])
            if o in ("Mc", "Ms"):
                mods.add(o)
            ops.append(o)
        out.append(scn(rng, ops))
    return out
