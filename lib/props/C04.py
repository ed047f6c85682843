from props.C01 import word
HARNESS, MODULE = "c04.cpp", "Sampling"
MACHINE = ("S0", "SampStep", "SampNext")
MODELS = [{"module": "SamplingModel", "cfg": "SamplingModel.cfg"}]
CAMPAIGNS = [{"name": "O1", "flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]}]
KINDS = ["lcg", "xoshiro", "splitmix", "wyrand"]


def vec(v):
    return "%d %s" % (len(v), " ".join(map(repr, v)))


def theta(d, rng):
    pos = lambda: rng.choice([1.0, 0.5, 2.0, round(rng.uniform(0.05, 5), 3)])
    any_ = lambda: rng.choice([0.0, 1.0, -2.5, round(rng.uniform(-10, 10), 3)])
    if d == "uniform":
        a = any_()
        return [a, a + rng.choice([1.0, pos(), 1e-3, 1000.0])]
    if d == "coin":
        return []
    if d == "dice":
        return [float(rng.choice([1, 2, 3, 6, 7, 20, 100]))]
    if d in ("exponential", "rayleigh"):
        return [pos()]
    if d in ("cauchy", "laplace", "polar", "boxmuller", "clt"):
        return [any_(), pos()]
    return [pos(), pos() + 0.3]


DISTS = ["uniform", "coin", "dice", "exponential", "rayleigh", "cauchy", "laplace", "pareto", "polar", "boxmuller", "clt"]


def sample(rng, g, d=None):
    d = d or rng.choice(DISTS)
    hows = ["direct"]
    if d not in ("boxmuller", "clt"):
        hows = ["direct", "direct", "theta", "sampler", "fill", "filln", "shift"]
    how = rng.choice(hows)
    c = "sample %s %s %s %s" % (g, d, how, vec(theta(d, rng)))
    if how == "direct" and d == "uniform" and rng.random() < .5:
        c += " %d" % rng.choice([2, 10, 1000, 1 << 20, 1 << 31, 1 << 52])
    if how == "direct" and d == "clt" and rng.random() < .6:
        c += " %d" % rng.choice([1, 2, 5, 12, 30])
    return c


def deviate(rng):
    """A word whose deviate is next to an end, the middle or the edge of the circle, or any."""
    low = rng.choice([0, 1, 2, 2 ** 31 - 1, 2 ** 31 - 2, 2 ** 30, 2 ** 30 + 1, 2 ** 30 - 1, 2 ** 29, 3 * 2 ** 29, rng.randrange(2 ** 31), rng.randrange(2 ** 31), rng.randrange(2 ** 31 - 2 ** 20, 2 ** 31), rng.randrange(2 ** 20), 2 ** 30 + rng.randrange(-10 ** 5, 10 ** 5)])
    return rng.choice([0, 0, rng.randrange(2 ** 33)]) << 31 | low


def traces(check, rng):
    q = check.tier == "quick"
    k = 1 if q else 12
    ts = []

    def new():
        return ["new %s %s %d" % (g, rng.choice(KINDS), rng.choice([0, 1, word(rng), word(rng), word(rng) // (2 ** 31 - 1) * (2 ** 31 - 1)])) for g in ("a", "b")]
    for d in DISTS:
        for _ in range(12 * k):
            ts.append(new() + [sample(rng, "a", d) for _ in range(4)])
    for _ in range(60 * k):
        ts.append(new() + [sample(rng, rng.choice("ab")) for _ in range(10)])
    for _ in range(40 * k):     # pair methods interleaved over two generators
        ts.append(new() + [sample(rng, rng.choice("ab"), rng.choice(["polar", "boxmuller", "uniform"])) for _ in range(9)])
    for _ in range(60 * k):     # chosen deviates
        w = [deviate(rng) for _ in range(rng.choice([1, 3, 5, 7]))] + [2 ** 30 + 12345678, 2 ** 29 + 777]
        ts.append(["script a %d %s" % (len(w), " ".join(map(str, w)))] + new()[1:] + [sample(rng, "a", rng.choice(DISTS + ["polar", "boxmuller"])) for _ in range(6)])
    for _ in range(60 * k):
        n = rng.choice([1, 2, 3, 4, 5, 8, 12])
        x = [rng.randrange(-50, 50) for _ in range(n)]
        ts.append(new() + ["shuffle a %d %s %d %s" % (rng.choice([0, 0, 1, 2, 5, 20]), rng.choice(["vec", "std"]), n, " ".join(map(str, x))), "sample a uniform direct 2 0.0 1.0"])
    for _ in range(40 * k):
        c = [round(rng.uniform(0, 1), 3), round(rng.uniform(-.3, .3), 3), round(rng.uniform(-.2, .2), 3)]
        x1 = round(rng.uniform(-2, 1), 3)
        x2 = x1 + round(rng.uniform(.1, 2), 3)
        ts.append(new() + ["trycatch a %s %r %r %r %r %d" % (vec(c), x1, x2, rng.choice([0.0, -1.0]), rng.choice([1.0, 2.0, 20.0]), rng.choice([100, 3, 1, 10])),
                           "reject a %s %r %r %r %d" % (vec(c), x1, x2, rng.choice([1.0, 2.5, 40.0]), rng.choice([100, 3, 1, 10])),
                           "trycatch b %s 0.0 1.0 5.0 6.0 %d" % (vec([0.5]), rng.choice([100, 2])),
                           "metropolis a %s %r %r %d" % (rng.choice("ab"), rng.choice([0.5, 1.0, 5.0]), x1, rng.choice([16, 1, 5, 30]))])
    for kind in ["crude", "crude2", "qcrude", "qcrude2", "hom", "homf", "qhom", "qhomf", "hom2d", "imp", "qimp"]:
        for _ in range(10 * k):
            a = round(rng.uniform(-3, 2), 3)
            b = a + round(rng.uniform(.2, 3), 3)
            c = rng.choice([0.0, -1.0, round(rng.uniform(-3, 1), 2)])
            d = c + rng.choice([1.0, round(rng.uniform(.5, 4), 2)])
            if kind in ("homf", "qhomf"):
                d = abs(d) + .5
            co = [round(rng.uniform(-1, 1), 2) for _ in range(rng.randint(1, 4))]
            al = rng.choice([0.0, 0.7548776662466927, round(rng.uniform(.1, .9), 4)]) if kind == "qcrude2" else 0.0
            ts.append(new() + ["mc a %s %s %d %r %r %r %r %r %r" % (kind, vec(co), rng.choice([1, 2, 5, 17, 30]), a, b, c, d, rng.choice([1.0, 2.5]), al)])
    for n in list(range(0, 40)) + [rng.randrange(40, 200000) for _ in range(40)]:
        ts.append(["weyl %d" % n, "weyl %d %r" % (n, rng.choice([0.5, 0.25, 1.5, round(rng.uniform(0, 3), 4)])), "weylm %d %r" % (n, rng.choice([0.5, round(rng.uniform(0, 1), 4)]))])
    for _ in range(40):
        ts.append(["weylr %r" % rng.uniform(0, 1), "weylr 0.0 %r" % rng.uniform(0, 1), "weylr %r %r" % (rng.uniform(0, 1), rng.uniform(0, 2)), "weylr 0.0"])
    for _ in range(15 * k):
        ts.append(new() + ["samplemc %r %r %r %d" % (-1.0, rng.choice([0.5, 2.0]), rng.choice([1.0, .3]), rng.randint(1, 8)), sample(rng, "b")])
    return {"main": ts}
