import itertools
from props.C21 import vec

HARNESS, MODULE = "c25.cpp", "Stat"
MACHINE = ("S0", "SStep", "SNext")
MODELS = [{"module": "StatModel", "cfg": "StatModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def sample(rng, n):
    m = rng.random()
    if m < .3:
        return [float(rng.randint(-4, 4)) for _ in range(n)]
    if m < .4:
        return [rng.choice([2.5, -3.0, 0.0])] * n
    if m < .55:
        s = rng.choice([1e-19, 1e-9, 1e6, 1e30])
        return [rng.uniform(-s, s) for _ in range(n)]
    if m < .7:
        o = rng.choice([10.0, 1e3, -1e6])
        return [o + rng.uniform(-1, 1) for _ in range(n)]
    return [rng.gauss(1, 3) for _ in range(n)]


def length(rng):
    return rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, rng.randint(3, 25), rng.choice([17, 33, 40, 65, 101, 130])])


def kind(rng):
    return rng.choice(["std", "vec"])


def xy(rng, n=None):
    n = length(rng) if n is None else n
    m = rng.random()
    x = [float(i) for i in range(n)] if m < .15 else sample(rng, n)
    a, b = rng.choice([(0.0, 1.0), (2.0, -3.0), (rng.gauss(0, 5), rng.gauss(0, 2)), (1e3, 1e-3), (-1.0, 0.0)])
    s = rng.choice([0.0, 0.0, .1, 1, 10])
    y = [a + b * t + rng.gauss(0, s) for t in x]
    if rng.random() < .2:
        y = sample(rng, n)
    if rng.random() < .06:
        y = y + [1.0]
    return x, y


def sig(rng, n):
    s = [rng.choice([.5, 1.0, 2.0, rng.uniform(.05, 3)]) for _ in range(n)]
    if n and rng.random() < .08:
        s[rng.randrange(n)] = 0.0
    if n and rng.random() < .06:
        s = s[:-1]
    return s


def poly(rng, n):
    k = rng.randint(1, 4)
    return "%d %s" % (k, " ".join("%r %s" % (rng.choice([1.0, -2.0, rng.gauss(0, 2)]), " ".join(str(rng.randint(0, 3)) for _ in range(n))) for _ in range(k)))


def pv(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, 30, 69, 70, 71, 119, 120, 200, 258, 259, 260, 261, 300, 500, rng.randint(1, 400)])
    m = rng.random()
    x = n * rng.choice([.5, .9, 1, 1.1, 2, .49, .51]) if m < .4 else n + rng.gauss(0, 3) * (2 * n) ** .5 if m < .8 else rng.choice([0.0, 1e-6, .01, .1, 1.0, 5.0, 3.0 * n])
    return "pv %r %d" % (abs(float(x)), n)


def traces(check, rng):
    ts, q = [], check.tier == "quick"
    K = 2 if q else 14
    V = [-1.0, 0.0, 2.0, 3.5]
    for n in range(0, 5 if q else 6):
        for d in itertools.combinations_with_replacement(V, n):
            ts.append(["data %s %d %s %s" % (kind(rng), rng.choice([0, 1, 1, 2]), vec([0, 1, 2, n + 1]).replace(".0", ""), vec(rng.sample(d, n)))])
    for _ in range(70 * K):
        x = sample(rng, length(rng))
        lags = sorted({0, 1, 2, rng.randint(0, 6), len(x)})
        ts.append(["data %s %d %d %s %s" % (kind(rng), rng.randint(0, 2), len(lags), " ".join(map(str, lags)), vec(x))])
        n = len(x)
        y = sample(rng, n) if rng.random() < .6 else [3 - 2 * t for t in x]
        if rng.random() < .08:
            y = y + [0.5]
        ts.append(["pair %d %s %s" % (rng.randint(0, 2), vec(x), vec(y))])
        if n:
            z = sample(rng, n + (rng.random() < .1))
            ts.append(["prop %s %s" % (vec([abs(t) for t in x]), vec(z))])
    for _ in range(12 * K):
        g = [rng.gauss(0, 2) for _ in range(rng.randint(1, 8))]
        ts.append(["gauss %s %r %r" % (vec(g), rng.choice([0.0, rng.gauss(0, 2)]), rng.choice([1.0, rng.uniform(.1, 3)])),
                   "zs %r %r %r" % (rng.gauss(0, 9), rng.gauss(0, 9), rng.uniform(.01, 5))])
        n = rng.randint(1, 9)
        s = sig(rng, n)
        x, y = xy(rng, n)
        ts.append(["chi %s %s %s" % (vec(x), vec(y), vec(s)), "chil %s %s %s %r %r" % (vec(x), vec(y), vec(s), rng.gauss(0, 3), rng.gauss(0, 2))])
        ts.append(["mc %d %d %r %r" % (rng.randint(1, 10 ** 6), rng.choice([2, 5, 30]), rng.gauss(0, 3), rng.uniform(.1, 2))])
    ts.append(["pv 1.0 0"])
    ts.append(["fit vec w 0 4 0.0 1.0 2.0 3.0 4 1.0 2.0 4.0 3.0 4 1.0 0.0 1.0 1.0", "fit std w 1 3 0.0 1.0 3.0 3 1.0 2.0 4.0 3 0.0 1.0 2.0"])
    for _ in range(60 * K):
        ts.append([pv(rng)])
    for _ in range(50 * K):
        x, y = xy(rng)
        n = len(x)
        ts.append(["ols %s %s %s %r" % (kind(rng), vec(x), vec(y), rng.choice([1.0, .5, rng.uniform(.1, 3)]))])
        w = [rng.choice([1.0, 2.0, .25, rng.uniform(.1, 10)]) for _ in range(n + (rng.random() < .05))]
        ts.append(["wls %s %s %s %s" % (kind(rng), vec(x), vec(y), vec(w))])
    for _ in range(45 * K):
        t = ["fresh"] if rng.random() < .5 else []
        for _ in range(rng.randint(1, 4)):
            x, y = xy(rng, rng.choice([None, 3, 5, 9, 20]))
            how = rng.choice(["0", "y", "w", "xy", "xy"])
            s = {"0": lambda: [], "y": lambda: [rng.choice([1.0, .25, 0.0, -.5, rng.uniform(.1, 5)])], "w": lambda: sig(rng, len(x)),
                 "xy": lambda: [rng.choice([0.0, 1e-6, .1, 1.0, 1.0, 3.0]), rng.choice([1e-3, .1, 1.0, 1.0, 5.0])]}[how]()
            t.append("fit %s %s %d %s %s %s" % (kind(rng), how, rng.randint(0, 1), vec(x), vec(y), vec(s)))
            t.append("val %r" % rng.gauss(0, 4))
        ts.append(t)
    for _ in range(25 * K):
        n = rng.choice([1, 2, 2, 3, 3])
        x = [rng.choice([0.0, 1.0, rng.gauss(0, 2)]) for _ in range(n)]
        m = n if rng.random() < .9 else n + 1
        L = [[rng.gauss(0, 1) for _ in range(m)] for _ in range(m)]
        c = [[sum(L[i][k] * L[j][k] for k in range(m)) for j in range(m)] for i in range(m)]
        c = [[c[min(i, j)][max(i, j)] for j in range(m)] for i in range(m)]
        dia = int(m == n and rng.random() < .5)
        ts.append(["ep %s %s %s %d %s %d %s" % (rng.choice(["fix", "dyn"]), vec(x), poly(rng, n), m, " ".join(repr(v) for r in c for v in r), dia, vec([rng.uniform(0, 2) for _ in range(n)]) if dia else "")])
        k = rng.randint(2, 8)
        xs = [[rng.gauss(o, 1) for _ in range(k)] for o in [rng.choice([0, 3, -20]) for _ in range(n)]]
        ts.append(["eps %s %d %s %s" % (rng.choice(["fix", "dyn"]), n, " ".join(vec(v) for v in xs), poly(rng, n))])
    return {"main": ts}
