import itertools
import math
from props.C21 import vec

HARNESS, MODULE = "c24.cpp", "Hist"
MACHINE = ("H0", "HStep", "HNext")
MODELS = [{"module": "HistModel", "cfg": "HistModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def nxt(x, d):
    return math.nextafter(x, d)


def rng_range(rng):
    """range, number of bins"""
    m = rng.random()
    if m < .35:
        a = float(rng.randint(-4, 4))
        return a, a + 2.0 ** rng.randint(-3, 4), 2 ** rng.randint(0, 5)
    if m < .5:
        a = float(rng.randint(-10, 10))
        n = rng.randint(1, 12)
        return a, a + n * rng.choice([1, 1, 2, 3, 10]), n
    if m < .65:
        s = rng.choice([1e-19, 1e-25, 3e-17, 1e15, 1e100, 1e-100])
        a = rng.uniform(-1, 1) * s
        return a, a + rng.uniform(.5, 4) * s, rng.randint(1, 20)
    if m < .75:
        return rng.choice([(-100.0, 1e-14), (-1e16, 1.0), (-1e3, 1e-13), (1e8, 1e8 + 1e-7)]) + (rng.randint(1, 9),)
    a = rng.uniform(-10, 10)
    return a, a + rng.uniform(.1, 20), rng.randint(1, 30)


def datum(rng, a, b, n):
    m = rng.random()
    if m < .35:
        i = rng.randint(0, n)
        e = a + i * ((b - a) / n)
        return rng.choice([e, e, e, nxt(e, math.inf), nxt(e, -math.inf)])
    if m < .45:
        return rng.choice([a, b, nxt(b, -math.inf), nxt(a, math.inf), nxt(a, -math.inf), nxt(b, math.inf)])
    if m < .55:
        return rng.choice([a - (b - a), b + (b - a), -1e300, 1e300, float("inf"), float("-inf"), float("nan"), 0.0, -0.0, b - (b - a) * 1e-16, (a + b) / 2])
    return a + rng.random() * (b - a)


def traces(check, rng):
    ts = []
    quick = check.tier == "quick"
    # every short history of edge values
    for n, a, b in ((1, 0.0, 1.0), (2, -1.0, 1.0), (3, 0.0, 3.0), (4, 0.0, 1.0)):
        w = (b - a) / n
        vals = sorted({a - w, a, a + w, a + w / 2, b, b + w, nxt(b, -9), nxt(a, 9e9), b - w})
        for h in itertools.product(vals, repeat=2):
            ts.append(["new %d %r %r" % (n, a, b)] + ["ins %r" % x for x in h] + ["stats"])
    # integer edges of every kind of range
    for n in (5, 7, 10, 11, 49):
        ts.append(["new %d 0.0 %r" % (n, float(n))] + ["ins %r" % float(i) for i in range(n + 1)] + ["stats"])
    for _ in range(60 if quick else 900):
        a, b, n = rng_range(rng)
        t = ["new %d %r %r" % (n, a, b)]
        if rng.random() < .3:
            t.append("stats")
        for _ in range(rng.choice([0, 1, 2, 5, 20, rng.randint(3, 40)])):
            t.append("ins %r" % datum(rng, a, b, n))
            if rng.random() < .1:
                t.append("stats")
            if rng.random() < .1:
                t.append("val %r" % datum(rng, a, b, n))
            if rng.random() < .05:
                t.append("copy")
        t += ["stats", "text %d %d 0" % (rng.randint(0, 1), rng.randint(0, 1)), "text 1 0 1"]
        ts.append(t)
    for _ in range(40 if quick else 600):
        n = rng.choice([1, 2, 3, 4, 8, 9, 10, 15, 16, 17, 24, 25, 26, rng.randint(1, 60)])
        m = rng.random()
        if m < .2:
            x = [float(rng.randint(-3, 3)) for _ in range(n)]
        elif m < .3:
            x = [rng.choice([2.5, 1e-20])] * n
        elif m < .5:
            s = rng.choice([1e-19, 1e-30, 1e12, 1e150])
            x = [rng.uniform(-s, s) for _ in range(n)]
        elif m < .6:
            x = [1e6 + rng.uniform(-1, 1) for _ in range(n)]
        else:
            x = [rng.gauss(3, 2) for _ in range(n)]
        k = rng.choice([0, 0, 1, 2, 7, rng.randint(1, 40)])
        a, b = min(x), max(x)
        t = ["data %s %d %s" % (rng.choice(["std", "vec"]), k, vec(x)), "stats"]
        for _ in range(rng.randint(0, 6)):
            t.append("%s %r" % (rng.choice(["ins", "ins", "val"]), datum(rng, a, b, max(k, 1))))
        t += ["stats", "text 1 1 0", "text 0 1 0"]
        ts.append(t)
    return {"main": ts}
