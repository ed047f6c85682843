HARNESS, MODULE = "c01.cpp", "Bits"
MODELS = [{"module": "BitsModel", "cfg": "BitsModel.cfg"}]
CAMPAIGNS = [{"name": "O1", "flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]},
             {"name": "O2", "flags": ["-O2"]}]


def word(rng, w=64):
    k = rng.randrange(5)
    if k == 0:
        return rng.getrandbits(w)
    if k == 1:
        return rng.getrandbits(rng.randint(1, w))
    if k == 2:
        return (1 << w) - 1 - rng.getrandbits(rng.randint(1, w))
    if k == 3:
        x = 0
        for _ in range(rng.randint(1, 4)):
            x ^= 1 << rng.randrange(w)
        return x
    return (((1 << rng.randint(1, w)) - 1) << rng.randrange(w)) & ((1 << w) - 1)


def traces(check, rng):
    ts = check.generate("BitsModel", "BitsGen.cfg")
    n = 2000 if check.tier == "quick" else 60000
    for _ in range(n):
        a, b = word(rng), word(rng)
        ts.append(["mul %d %d" % (a, b), "mum %d %d" % (a, b)])
    for _ in range(n // 4):
        w = rng.choice([8, 16, 32, 64])
        t = ["load %d %d" % (w, word(rng, w))]
        t += ["rot %d" % rng.choice([0, 1, w // 2, w - 1, w, rng.randrange(w + 1)]) for _ in range(rng.randint(1, 8))]
        ts.append(t)
    for w in (8, 16, 32, 64):      # every rotation of a few words
        for x in (1, (1 << w) - 1, word(rng, w), 1 << (w - 1), 0):
            for i in range(w + 1):
                ts.append(["load %d %d" % (w, x), "rot %d" % i])
    for m in range(0, 8 if check.tier == "quick" else 11):
        for extra in (0, 1, 3, (1 << m)):
            for ty in ("vec", "std"):
                x = list(range(100, 100 + (1 << m) + extra))
                if extra == 3:
                    rng.shuffle(x)
                c = "rev %d %s %d %s" % (m, ty, len(x), " ".join(map(str, x)))
                ts.append([c])
    return {"main": ts}
