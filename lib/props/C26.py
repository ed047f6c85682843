import itertools
from props.C21 import vec

HARNESS, MODULE = "c26.cpp", "Pdf"
MACHINE = ("D0", "DStep", "DNext")
MODELS = [{"module": "PdfModel", "cfg": "PdfModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]

NPAR = {"gaussian": 2, "bernoulli": 1, "poisson": 1, "binomial": 2, "chi_squared": 1, "gamma": 2, "beta": 2, "student": 1, "log_normal": 2,
        "exponential": 1, "rayleigh": 1, "cauchy": 2, "breit_wigner": 2, "maxwell": 1, "laplace": 2, "pareto": 2, "erlang": 2}


def pos(rng):
    return rng.choice([1.0, .5, 2.0, 3.0, rng.uniform(.1, 5), rng.uniform(.1, 5), rng.choice([.01, 30.0])])


def loc(rng):
    return rng.choice([0.0, 1.0, -2.0, rng.gauss(0, 5)])


def params(f, rng):
    """parameters and a typical scale and place"""
    if f in ("gaussian", "cauchy", "breit_wigner", "laplace"):
        m, s = loc(rng), pos(rng)
        return [m, s], m, s
    if f == "bernoulli":
        return [rng.choice([0.0, 1.0, .5, rng.random()])], 0, 1
    if f == "poisson":
        return [rng.choice([0.5, 1.0, 4.0, rng.uniform(.1, 60)])], 0, 1
    if f == "binomial":
        return [float(rng.choice([0, 1, 2, 5, 20, 63, 70, 100, rng.randint(1, 150)])), rng.choice([0.0, 1.0, .5, rng.random()])], 0, 1
    if f in ("chi_squared", "student"):
        k = rng.choice([1, 2, 3, 4, 5, 8, 15, 30, 31, 44, 45, 64, 65, 66, 90, rng.randint(1, 60)])
        return [float(k)], (k if f == "chi_squared" else 0), (3 + k ** .5 if f == "chi_squared" else 2)
    if f == "gamma":
        a, b = rng.choice([1.0, 2.0, 25.0, 30.0, rng.uniform(.2, 12), rng.uniform(1, 40)]), pos(rng)
        return [a, b], a / b, (1 + a ** .5) / b
    if f == "erlang":
        a, b = rng.choice([1, 2, 3, 20, 21, 22, 23, 40, rng.randint(1, 35)]), rng.choice([1.0, 2.0, rng.uniform(.5, 5)])
        return [float(a), b], a / b, (1 + a ** .5) / b
    if f == "beta":
        return [rng.choice([1.0, 2.0, rng.uniform(.3, 20)]), rng.choice([1.0, 3.0, rng.uniform(.3, 20)])], .5, .3
    if f == "log_normal":
        return [rng.gauss(0, 1.5), rng.choice([1.0, rng.uniform(.2, 2)])], 1, 2
    if f == "pareto":
        m, a = pos(rng), rng.uniform(.3, 9)
        return [m, a], m, m
    s = pos(rng)
    return [s], 0, (1 / s if f == "exponential" else s)


def point(f, p, c, s, rng):
    if f == "bernoulli":
        return rng.choice([0, 1, 2, 3, 7, -1])
    if f == "poisson":
        return rng.choice([0, 1, 2, 12, 13, 20, 21, 22, 25, 34, 50, 65, 66, 90, -1, -3, rng.randint(0, 70), int(p[0])])
    if f == "binomial":
        n = int(p[0])
        return rng.choice([0, n, n + 1, n + 5, n // 2, -1, rng.randint(0, n)])
    m = rng.random()
    if m < .12:
        return rng.choice([0.0, 1.0, -1.0, -.5, c, -1e-9])
    if m < .2:
        return c + rng.choice([-1, 1]) * s * rng.choice([5, 12, 1e-6])
    x = rng.gauss(c, 1.5 * s)
    return abs(x) if f not in ("gaussian", "cauchy", "breit_wigner", "laplace", "student") and rng.random() < .85 else x


def traces(check, rng):
    ts, K = [], (1 if check.tier == "quick" else 12)
    for f in sorted(NPAR):
        for n in range(5):
            if n != NPAR[f]:
                ts.append(["size %s %s" % (f, vec([2.0] * n))])
        for _ in range(32 * K):
            p, c, s = params(f, rng)
            ts.append(["pdf %s %r %s" % (f, float(point(f, p, c, s, rng)), vec(p)) for _ in range(2)])
        for _ in range(5 * K):
            p, c, s = params(f, rng)
            ts.append(["like %s %s %s" % (f, vec(p), vec([float(point(f, p, c, s, rng)) for _ in range(rng.randint(0, 5))]))])
    for k in list(range(0, 30)) + [40, 60, 80]:
        ts.append(["pdf poisson %r 1 %r" % (float(k), lam) for lam in (.5, 3.0, 20.0)])
    for n in list(range(0, 12)) + [30, 61, 62, 63, 64, 65, 68, 80, 120]:
        ts.append(["mass binomial %d %s" % (n, vec([float(n), p])) for p in (0.0, .25, rng.random(), 1.0)])
    for p in (0.0, .5, rng.random(), 1.0):
        ts.append(["mass bernoulli 4 1 %r" % p])
    for lam in (.1, 1.0, 7.5, 20.0):
        ts.append(["mass poisson 90 1 %r" % lam])
    for n in range(0, 4):
        for x in itertools.product(range(n + 2), repeat=3):
            if sum(x) <= n + 1:
                ts.append(["multi %s %d 3 3 .5 .25 .25" % (vec(list(map(float, x))), n)])
    for _ in range(15 * K):
        k = rng.randint(1, 5)
        x = [rng.choice([0, 1, 2, 5, 9, 21]) for _ in range(k)]
        w = [rng.random() for _ in x]
        p = [t / sum(w) for t in w]
        ts.append(["multi %s %d %d %s" % (vec(list(map(float, x))), sum(x) + (rng.random() < .15), k + (rng.random() < .1), vec(p + ([.1] if rng.random() < .08 else [])))])
    return {"main": ts}
