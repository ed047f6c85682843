HARNESS, MODULE = "c21.cpp", "Roots"
MACHINE = ("R0", "RStep", "RNext")
MODELS = [{"module": "RootsModel", "cfg": "RootsModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]
OPEN = ["newton", "newtonf", "newtond", "halley", "halleyd", "steffensen", "chebyshev", "chebyshevd", "ostrowski", "jarrat"]
FAMS = ["lin", "cube", "flat", "step", "cbrt", "exp", "sin", "para", "int", "wild", "tail"]


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def mul(p, q):
    r = [0.0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def cmul(p, q):
    r = [0j] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def from_roots(z, k=1.0):
    p = [k]
    for r in z:
        p = mul(p, [-r, 1.0])
    return p


def scale(rng):
    return rng.choice([1.0, 1.0, -1.0, -2.5, 1e-10, 1e8, 1e-200, -1e-180, 1e150, 10.0 ** rng.randint(-12, 12)])


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    N = 1 if q else 12
    for _ in range(N):
        # bracketing methods
        for m in ("bisect", "itp"):
            for fam in FAMS:
                for _ in range(5):
                    c = rng.choice([0.0, .3, 1.0, round(rng.uniform(-5, 5), 2), rng.uniform(-5, 5), rng.uniform(-1e3, 1e3)])
                    a, b = c - rng.choice([1.0, .5, rng.uniform(.01, 3)]), c + rng.choice([1.0, .25, rng.uniform(.01, 3)])
                    mode = rng.random()
                    if mode < .08:
                        a, b = b, a
                    elif mode < .16:
                        a, b = c + .1, c + .7            # no change of sign at c
                    elif mode < .22:
                        a = c                            # a root at an end
                    tol = rng.choice(["def", "1e-8", "1e-12", "1e-3", "1e-5", repr(10.0 ** rng.uniform(-11, 0)), "5.0"])
                    ts.append(["bracket %s %s %r %r %r %r %s %d %d %r" % (m, fam, c, scale(rng), a, b, tol, rng.choice([100, 100, 40, 20, 5]), rng.choice([-1, 0, 1, 2, 5]), rng.choice([0.0, 0.0, .1, .01]))])
            # intervals already within tolerance, far from the origin
            for c in (3.0, -7.5, 100.25):
                for tol in (1e-2, 1e-3):
                    ts.append(["bracket %s lin %r 1.0 %r %r %r 100 -1 0.0" % (m, c, c - tol / 2, c + tol / 3, tol)])
            ts.append(["bracket %s const 0.0 1.0 -1.0 1.0 def 100 -1 0.0" % m])
            ts.append(["bracket %s const 0.0 0.0 -1.0 1.0 def 100 -1 0.0" % m])
        # tolerances at every scale of halving, with just enough iterations and with too few
        for k in range(1, 30):
            for mx in (k - 2, k - 1, k, k + 1, k + 2):
                if mx >= 1:
                    ts.append(["bracket bisect lin 0.3 1.0 0.0 1.0 %r %d -1 0.0" % (.5 * .99 * 2.0 ** -k, mx)])
        # open methods
        for m in OPEN:
            for _ in range(22):
                d = rng.randint(1, 5)
                z = sorted(rng.sample([-3.0, -2.0, -1.5, -1.0, -.5, 0.0, .25, .5, 1.0, 1.5, 2.0, 3.0], d))
                p = from_roots(z, rng.choice([1.0, 1.0, -1.0, .5, 2.0, .1]))
                tol = rng.choice(["def", "1e-8", "1e-10", "1e-12", "1e-6", "1e-3"])
                mode = rng.random()
                r = rng.choice(z)
                if mode < .55:           # close to a simple root: has to succeed
                    x, mx = r + rng.choice([1, -1]) * rng.choice([1e-4, 3e-5, 1e-5, 1e-3]), rng.choice([6, 8, 10, 100])
                elif mode < .65:         # on a root
                    x, mx = r, rng.choice([1, 6, 100])
                elif mode < .75:         # multiple root, and starting on it
                    p = mul(p, [-r, 1.0])
                    x, mx = rng.choice([r, r + .1, r - .25]), 100
                elif mode < .85:         # no real root
                    p = mul([1.0, 0.0, 1.0], [rng.choice([2.0, 1.0]), rng.choice([0.0, 1.0]), 1.0]) if rng.random() < .5 else [rng.choice([1.0, 1e-9, 1e-7, -1e-9]), 0.0, 1.0]
                    x, mx = rng.choice([0.0, 1.0, -.7, 1e-5]), rng.choice([5, 100])
                elif mode < .9:          # constant
                    p = [rng.choice([1.0, 0.0, 1e-9])]
                    x, mx = .5, 100
                else:                    # anywhere
                    x, mx = rng.choice([0.0, rng.uniform(-10, 10)]), rng.choice([1, 2, 5, 100])
                ts.append(["open %s %s %r %s %d" % (m, vec(p), x, tol, mx)])
        # how fast
        for m in OPEN:
            for _ in range(6):
                k = rng.choice([1.0, 1.0, -1.0]) * (1.0 if m == "steffensen" else rng.choice([1.0, .5, 2.0, 3.7]))
                p = [0.0, k] + [k * round(rng.uniform(.3, 1) * rng.choice([-1, 1]), 3) for _ in range(rng.randint(1, 4))]
                ts.append(["order %s %s %r %s" % (m, vec(p), rng.choice([1, -1]) * rng.choice([1e-2, 5e-3, 1e-3, 1e-4, rng.uniform(1e-4, 1e-2)]), rng.choice(["1e-15", "1e-18", "1e-20", "1e-23", "1e-28", "1e-40", "1e-60"]))])
        for _ in range(40):
            z = [complex(rng.choice([-1, 0, 1, 2, .5]), rng.choice([-1, 0, 1, .5, 1.5])) for _ in range(rng.randint(1, 4))]
            p = [1 + 0j]
            for r in z:
                p = cmul(p, [-r, 1])
            r = rng.choice(z)
            mode = rng.random()
            x = r + complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) * 1e-4 if mode < .6 else r if mode < .7 else complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
            ts.append(["copen %s %r %r %r %d" % (vec(sum([[c.real, c.imag] for c in p], [])), x.real, x.imag, rng.choice([1e-8, 1e-10, 1e-6]), rng.choice([6, 20, 100, 2]))])
        # systems
        for k, n in (("1", 1), ("2", 2), ("3", 3), ("dyn", 1), ("dyn", 2), ("dyn", 4)):
            for _ in range(8):
                mode = rng.random()
                s = "%d" % n
                for i in range(n):
                    row = [(float(rng.randint(-2, 2)), [1 if j == m else 0 for m in range(n)]) for j in range(n)]
                    if mode < .8:
                        row[i] = (rng.choice([-1, 1]) * float(4 * n + rng.randint(1, 4)), row[i][1])
                    row.append((round(rng.uniform(-5, 5), 2), [0] * n))
                    if .4 < mode:
                        e = [0] * n
                        e[rng.randrange(n)] += 1
                        e[rng.randrange(n)] += 1
                        row.append((rng.choice([.1, 1.0, -.5]), e))
                    s += " %d %s" % (len(row), " ".join("%r %s" % (c, " ".join(map(str, x))) for c, x in row))
                ts.append(["multi %s %s %s %r %d" % (k, s, vec([rng.choice([0.0, rng.uniform(-2, 2)]) for _ in range(n)]), rng.choice([1e-9, 1e-3, 1e-6]), rng.choice([3, 10, 50, 500]))])
        # singular systems
        ts.append(["multi 2 2 2 1.0 1 0 1.0 0 1 3 1.0 1 0 1.0 0 1 -1.0 0 0 2 0.5 0.25 1e-6 50"])
        ts.append(["multi 2 2 1 1.0 2 0 1 1.0 0 2 2 0.0 0.0 1e-6 50"])
        # sweeps
        for fam in FAMS + ["const", "int", "int"]:
            for n in (-1, 1, rng.randint(2, 9), 12, 16, 20):
                c = rng.choice([0.0, 0.0, .3, rng.uniform(-2, 2)])
                a, b = rng.choice([(-2.0, 2.0), (-3.0, 3.0), (0.0, 1.0), (-1.0, 1.0), (-1.0, 2.0), (c - rng.uniform(.1, 4), c + rng.uniform(.1, 4))])
                ts.append(["ivals %s %r %r %r %r %d" % (fam, c, scale(rng), a, b, n)])
                ts.append(["roots %s %r %r %r %r %r %d" % (fam, c, scale(rng), a, b, rng.choice([1e-8, 1e-5, 1e-3, 1e-10]), n)])
        ts.append(["ivals lin 0.0 1.0 -1.0 1.0 0"])
        ts.append(["roots lin 0.0 1.0 -1.0 1.0 1e-8 0"])
        ts.append(["roots int 0.0 1.0 0.0 1.0 1e-8 1"])
        for _ in range(25):
            z = sorted(rng.sample([-3.0, -2.0, -1.0, -.5, .5, 1.0, 2.0, 3.0, 1.25, -1.75], rng.randint(1, 4)))
            p = from_roots(z, rng.choice([1.0, -2.0, .5]))
            M = max(1.0, sum(abs(c) for c in p[:-1]) / abs(p[-1]))
            gap = min([y - x for x, y in zip(z, z[1:])] + [2 * M])
            steps = int(2 * M / gap) + 1 + rng.randint(0, 7)
            ts.append(["proots %s %s %r %d" % (vec(z), vec(p + [0.0] * rng.choice([0, 0, 2])), rng.choice([1e-8, 1e-10, 1e-6]), steps)])
        for p in ([1.0, 0.0, 1.0], [2.0, 1.0, 1.0]):
            ts.append(["proots 0 %s 1e-8 9" % vec(p)])
    return {"main": ts}
