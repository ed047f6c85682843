from props.C01 import word
REPEAT = 4
MACHINE = ("P0", "PrngStep", "PrngNext")
HARNESS, MODULE = "c03.cpp", "Prng"
CAMPAIGNS = [{"name": "O1", "flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]}, {"name": "O2", "flags": ["-O2"]}]
KINDS = ["lcg", "xoshiro", "splitmix", "wyrand", "middle"]


def vec(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


def params(k, rng):
    if k == "lcg":
        m = rng.choice([2147483647, 1 << 32, rng.randrange(2, 1 << 32), 97])
        return [rng.randrange(0, m + 1), rng.randrange(0, m + 1), m]
    return [word(rng) for _ in range({"xoshiro": 4, "splitmix": 0, "wyrand": 3, "middle": 1}[k])]


def traces(check, rng):
    q = check.tier == "quick"
    ts = check.generate("PrngModel", "PrngModel.cfg", ["-simulate", "num=%d" % (20 if q else 1500), "-depth", "70", "-seed", str(check.seed)])
    ts = [t for t in ts if rng.random() < 1500.0 / len(ts)] if q and len(ts) > 1500 else ts
    for _ in range(60 if q else 1500):
        for k in KINDS:
            s = rng.choice([0, 1, word(rng), word(rng)])
            t = ["new a %s %d" % (k, s)]
            if k == "wyrand" and rng.random() < .6:
                t = ["new a wyrand %d 2 %d %d" % (s, word(rng), rng.choice([0, word(rng)]))]
            if k == "middle" and rng.random() < .6:
                t = ["new a middle %d 1 %d" % (s, rng.choice([0, word(rng)]))]
            t += ["draw a " + rng.choice(["next", "call", "shift"]) for _ in range(rng.randint(1, 12))]
            ts.append(t + ["state a"])
            p = params(k, rng)
            ts.append(["raw a %s %d %s" % (k, rng.choice([0, word(rng)]), vec(p))] + ["draw a next"] * 4 + ["discard a 5", "draw a call", "state a"])
            x = rng.choice([0, rng.getrandbits(31), word(rng)])
            ts.append(["fn %s %d %s" % (k, x, vec(p))])
            if p:
                ts.append(["raw a %s 5 %s" % (k, vec(params("middle", rng) * len(p) if k != "lcg" else [48271, 11, 2147483647])), "draw a next",
                           "setpi a %d %d" % (rng.randrange(len(p)) if k != "lcg" else 1, word(rng) if k != "lcg" else 77), "draw a next", "draw a next", "state a"])
        s = word(rng)
        ts.append(["ctor a %d" % s, "new b xoshiro %d" % s] + ["draw a next", "draw b call"] * 3)
    for k in KINDS:
        ts.append(["new a %s %d" % (k, 1), "discard a 1000"] + ["draw a next"] * 3)
        ts.append(["new a %s %d" % (k, 0)] + ["draw a next"] * 200)
    return {"main": ts}
