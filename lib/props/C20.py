HARNESS, MODULE = "c20.cpp", "Ode"
MACHINE = ("O0", "OStep", "ONext")
MODELS = [{"module": "OdeModel", "cfg": "OdeModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]
ONE = ["euler", "midpoint", "heun", "rk2", "rk4", "k38"]
KINDS = [("real", 1), ("2", 2), ("3", 3), ("4", 4), ("dyn", 1), ("dyn", 2), ("dyn", 5)]


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def rhs(rng, n, deg=2, only_t=False):
    """polynomial right-hand side: terms c t^p x^q of degree at most deg in x"""
    s = "%d" % n
    for _ in range(n):
        k = rng.randint(1, 3)
        s += " %d" % k
        for _ in range(k):
            q = [0] * n
            if not only_t:
                for _ in range(rng.randint(0, deg)):
                    q[rng.randrange(n)] += 1
            c = rng.choice([1.0, -1.0, 2.0, .5, round(rng.uniform(-3, 3), 2), rng.uniform(-2, 2)])
            s += " %r %d %s" % (c, rng.choice([0, 0, 1, 2, 3, 4]), " ".join(map(str, q)))
    return s


def pt(rng, n):
    return [rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-2, 2), 1), rng.uniform(-2, 2)]) for _ in range(n)]


def h1(rng):
    return rng.choice([.5, .25, .1, .01, 1.0, 2.0 ** rng.randint(-12, 0), rng.uniform(.001, .5), -.25, -rng.uniform(.01, .5)])


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    for _ in range(3 if q else 30):
        for k, n in KINDS:
            for m in ONE:
                ts.append(["step %s %s %s %r %r %s %d" % (k, m, rhs(rng, n, 2, rng.random() < .3), rng.choice([0.0, rng.uniform(-3, 3)]), h1(rng), vec(pt(rng, n)), rng.randint(0, 1))])
            for m, c in (("adams2", 2), ("adams3", 3)):
                for _ in range(2):
                    h = h1(rng)
                    t = rng.uniform(-2, 2)
                    ts.append(["multi %s %s %s %r %s" % (k, m, rhs(rng, n), h, " ".join("%r %s" % (t + i * h, vec(pt(rng, n))) for i in range(c)))])

    def solve(k, n, m, how, t0, tf, h, deg=1):
        ts.append(["solve %s %s %s %s %r %r %r %s" % (k, m, rhs(rng, n, deg, rng.random() < .2), how, t0, tf, h, vec(pt(rng, n)))])
    for _ in range(1 if q else 12):
        for m in ONE:
            for how in ("plain", "std", "fix"):
                for _ in range(5):
                    k, n = rng.choice(KINDS)
                    t0 = rng.choice([0.0, 0.0, 1.0, -1.0, float(rng.randint(-5, 5)), rng.uniform(-10, 10), 1000.0, rng.uniform(-1e-3, 1e-3)])
                    mode = rng.random()
                    if mode < .4:        # the step divides the interval, up to rounding
                        h = rng.choice([.1, .01, .2, .3, .25, .05, 1 / 3, .7])
                        c = rng.randint(1, 12)
                        tf = rng.choice([t0 + c * h, round(t0 + c * h, 10)])
                    elif mode < .8:
                        h = rng.choice([.1, .3, .5, rng.uniform(.05, 1)])
                        tf = t0 + rng.uniform(0, 12) * h
                    elif mode < .9:      # a single short step, or none
                        h = rng.choice([1.0, .5])
                        tf = t0 + h * rng.choice([0.0, .3, .999, 1.0, 1e-6])
                    else:
                        t0, h = 0.0, rng.choice([1e-17, 3e-17, 1e-9, 7e-20])
                        tf = h * rng.uniform(.2, 9)
                    solve(k, n, m, how, t0, tf, h)
            k, n = rng.choice(KINDS)
            solve(k, n, m, "def", 0.0, rng.choice([.05, .033]) if m == "rk4" else rng.choice([.001, .00155]), 0.1)
            # impossible requests
            k, n = rng.choice(KINDS)
            solve(k, n, m, "plain", 1.0, rng.choice([0.0, .999, -5.0]), .1)
            solve(k, n, m, rng.choice(["plain", "fix"]), 0.0, 1.0, rng.choice([0.0, -.1, float("nan")]))
        for m in ONE:
            k, n = rng.choice(KINDS)
            for c in (33, 64, 129):
                h = rng.choice([.01, .02, .005])
                solve(k, n, m, rng.choice(["plain", "std", "fix"]), 0.0, round(c * h, 6) + rng.choice([0, .4 * h]), h, 0)
        for c in range(1, 11):
            for h in (.1, .3, .7):
                solve("real", 1, "euler", "plain", 0.0, round(c * h, 6), h)
    return {"main": ts}
