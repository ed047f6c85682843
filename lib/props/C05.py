HARNESS, MODULE = "c05.cpp", "Dataset"
MODELS = [{"module": "DatasetModel", "cfg": "DatasetModel.cfg"}]
CAMPAIGNS = [{"name": "O1", "flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]}, {"name": "O3", "flags": ["-O3"], "tier": "thorough"}]
ONE = ["sum", "pairwise", "compensated", "product", "sum_squares", "max", "min", "arithmetic", "harmonic", "quadratic", "geometric"]
TWO = ["product_sum", "product_sum_squares", "quotient_sum", "weighted"]


def num(rng, kind):
    if kind == 0:
        return float(rng.randint(-9, 9))
    if kind == 1:
        return rng.uniform(-10, 10)
    if kind == 2:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12)
    if kind == 3:
        return rng.uniform(.1, 10)
    if kind == 4:
        return rng.choice([1e16, -1e16, 1.0, -1.0, 1e-3, 3.0, 1e8])
    return rng.choice([0.1, 0.1, 0.3, -0.7])


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(x) for x in v))


def data(rng, n, kind, nz=False):
    v = [num(rng, kind) for _ in range(n)]
    if nz:
        v = [x if abs(x) > 1e-9 else 1.5 for x in v]
    return v


def good(f, x, y):
    if f == "harmonic":
        return abs(sum(1 / t for t in x)) > 1e-9 * sum(abs(1 / t) for t in x)
    if f == "weighted":
        return abs(sum(y)) > 1e-9 * sum(map(abs, y))
    if f == "geometric":
        p, s = 0.0, 1
        import math
        for t in x:
            if t == 0:
                return False
            p += math.log10(abs(t))
            s = -s if t < 0 else s
        return abs(p) < 12 and (s > 0 or len(x) % 2 == 1) and len(x) <= 30
    if f == "product":
        import math
        return abs(sum(math.log10(abs(t)) if t else 0 for t in x)) < 290
    return True


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    small = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 259, 300, 384, 385, 511, 513]
    big = [700, 1000, 1025] if q else [700, 1000, 1023, 1024, 1025, 2047, 2049, 3000]
    for n in small + big:
        for rep in range((4 if n <= 17 else 1) * (1 if q else 6)):
            for f in ONE:
                kind = rng.randrange(6)
                if f == "geometric":
                    kind = 3 if rng.random() < .6 else 1
                if f == "harmonic" and n > 40:
                    kind = 0      # small integers keep the exact sum of reciprocals small
                x = data(rng, n, kind, f in ("harmonic", "geometric", "product"))
                if good(f, x, x):
                    ts.append(["red %s %s %s" % (f, rng.choice(["std", "dyn", "fix"]), vec(x))])
            for f in TWO:
                x, y = data(rng, n, rng.randrange(6)), data(rng, n, 0 if f == "quotient_sum" and n > 40 else rng.randrange(6), True)
                if good(f, x, y):
                    ts.append(["red2 %s %s %s %s" % (f, rng.choice(["std", "dyn", "fix"]), vec(x), vec(y))])
            x, y, z = (data(rng, n, rng.randrange(4)) for _ in range(3))
            ts.append(["red3 product_sum3 %s %s %s %s" % (rng.choice(["std", "dyn", "fix"]), vec(x), vec(y), vec(z))])
            ts.append(["apply %s %s %s" % (rng.choice(["square", "neg", "id"]), rng.choice(["std", "dyn", "fix"]), vec(x))])
            ts.append(["map %s %s %s" % (rng.choice(["square", "neg", "id"]), rng.choice(["std", "dyn"]), vec(x))])
            m = rng.randint(0, 9)
            ts.append(["concat - %s %s %s" % (rng.choice(["std", "dyn"]), vec(x), vec(y[:m] if m <= n else y))])
    # all ranges and base sizes of small pairwise sums
    for n in range(1, 9 if q else 13):
        x = data(rng, n, 1)
        for b in range(n):
            for e in range(b + 1, n + 1):
                for base in (1, 2, 3, 5):
                    ts.append(["red pairwise_range std %s %d %d %d" % (vec(x), b, e, base)])
    # orderings that cancel
    for _ in range(60 if q else 2000):
        n = rng.randint(2, 12)
        x = data(rng, n, rng.choice([2, 4]))
        x += [-t for t in x] + [rng.choice([1.0, 1e-5, 0.1])]
        rng.shuffle(x)
        ts.append(["red compensated %s %s" % (rng.choice(["std", "dyn"]), vec(x)), "red sum dyn %s" % vec(x)])
    # extrema at every position
    for n in range(1, 9):
        for i in range(n):
            for hi in (5.0, -5.0):
                x = [rng.uniform(-4, 4) for _ in range(n)]
                x[i] = hi
                ts.append(["red %s std %s" % ("max" if hi > 0 else "min", vec(x)), "red %s fix %s" % ("min" if hi > 0 else "max", vec(x)),
                           "red max std %s" % vec([-abs(t) for t in x]), "red min dyn %s" % vec([abs(t) + 1 for t in x])])
    for n in [100000, 1000000] if q else [1000, 10000, 65537, 100000, 1000000, 3000000]:
        for c in (0.1, 0.3, -0.7, 1e-9):
            ts.append(["red const_sum %d %r" % (n, c), "red const_comp %d %r" % (n, c)])
    return {"main": ts}
