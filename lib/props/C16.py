HARNESS, MODULE = "c16.cpp", "Jet"
MACHINE = ("D0", "DStep", "DNext")
MODELS = [{"module": "JetModel", "cfg": "JetModel.cfg"}, {"module": "JetModel", "cfg": "JetModel3.cfg", "tier": "thorough"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"}]
FUN = ["sqrt", "sin", "cos", "tan", "cot", "exp", "ln", "log2", "log10", "abs", "asin", "acos", "atan"]
HYP = ["sinh", "cosh", "tanh"]
ALG = ["neg", "id", "conj", "inverse", "square", "cube"]
SPECIAL = [0.0, 0.0, 1.0, -1.0, 2.0, -2.0, 0.5]


def val(rng):
    m = rng.random()
    if m < .15:
        return rng.choice(SPECIAL)
    if m < .5:
        return round(rng.uniform(-3, 3), 2)
    if m < .8:
        return rng.uniform(-.999, .999)
    return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, 2)


def jet(rng, n):
    a = val(rng)
    return [a] + [rng.choice([0.0, 1.0, val(rng), val(rng)]) for _ in range(n)]


def point(f, rng):
    """a real part in the domain of f most of the time"""
    if rng.random() < .1:
        return val(rng)
    if f in ("sqrt", "ln", "log2", "log10"):
        return 10.0 ** rng.uniform(-4, 4) if rng.random() < .9 else rng.choice([0.0, -1.0, 1.0])
    if f in ("asin", "acos"):
        return rng.uniform(-.9999, .9999) if rng.random() < .85 else rng.choice([1.0, -1.0, 1.5, -1.5, 0.0])
    if f in ("exp", "sinh", "cosh"):
        return rng.uniform(-20, 20)
    if f == "tanh":
        return rng.choice([rng.uniform(-3, 3), rng.uniform(-30, 30), 800.0, -800.0, 1e5])
    return rng.uniform(-10, 10)


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    kinds = [("dual", 1), ("dual2", 2), ("m1", 1), ("m2", 2), ("m3", 3), ("mdyn", 4), ("mdyn", 1)]

    def init(k, jets):
        return "init %s %d %s" % (k, len(jets), " ".join("%d %s" % (len(j), " ".join(repr(float(x)) for x in j)) for j in jets))
    for k, n in kinds:
        w = 2 if k in ("dual", "dual2") else 1
        fs = FUN + (HYP if k != "dual2" else [])
        # every function at many points with every kind of derivative
        for f in fs:
            for _ in range((8 if q else 80) * w):
                j = jet(rng, n)
                j[0] = point(f, rng)
                ts.append([init(k, [j, jet(rng, n)]), "un %s 0 1 2" % f])
        for f in ALG:
            for _ in range(4 * w if q else 30):
                ts.append([init(k, [jet(rng, n), jet(rng, n)]), "un %s %d 1 %d" % (f, rng.randint(0, 1), rng.choice([1, 2]))])
        if w == 2:
            for n0 in list(range(1, 8)) * 3:
                j = jet(rng, n)
                if all(x == x for x in j):
                    ts.append([init(k, [j, jet(rng, n)]), "un id %d 1 2" % n0, "bin * 1 2 1", "un id %d 1 1" % n0])
        for p in list(range(-4, 8)) * (1 if q else 6):
            for _ in range(w):
                j = jet(rng, n)
                ts.append([init(k, [j]), "un pow %d 1 1" % p])
        for p in range(-2, 5):
            ts.append([init(k, [[0.0] + [1.0, 2.0, 3.0, 4.0][:n]]), "un pow %d 1 1" % p])
        # histories over four registers, compound assignments and aliasing included
        for _ in range((40 if q else 600) * w):
            t = [init(k, [jet(rng, n) for _ in range(3)])]
            for _ in range(rng.randint(2, 7)):
                i, j, d = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
                o = rng.choice("+-**//")
                m = rng.random()
                if m < .2:
                    t.append("bin %s %d %d %d" % (o, i, j, d))
                elif m < .45:
                    t.append("asg %s %d %d" % (o, i, j))
                elif m < .55:
                    t.append("binr %s %d %r %d" % (o, i, val(rng), d))
                elif m < .65:
                    t.append("rbin %s %r %d %d" % (o, val(rng), i, d))
                elif m < .75:
                    t.append("asgr %s %d %r" % (o, i, val(rng)))
                elif m < .78 and k != "mdyn":
                    t.append("asgn %d %r" % (d, val(rng)))
                elif m < .82:
                    t.append("eq %d %d" % (i, j))
                elif m < .9:
                    t.append("un %s 0 %d %d" % (rng.choice(ALG), i, d))
                else:
                    t.append("un %s 0 %d %d" % (rng.choice(["sin", "cos", "exp", "atan", "abs"]), i, d))
            ts.append(t)
    return {"main": ts}
