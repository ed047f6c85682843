from props.C21 import vec, mul, from_roots

HARNESS, MODULE = "c22.cpp", "Extrema"
MACHINE = ("E0", "EStep", "ENext")
MODELS = [{"module": "ExtremaModel", "cfg": "ExtremaModel.cfg"}]
A = ["-O1", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]
FAMS = ["vee", "skew", "mono", "quad", "quart", "expm", "any"]


def integ(p, k):
    return [k] + [c / (i + 1) for i, c in enumerate(p)]


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    for _ in range(1 if q else 10):
        for kind in (1, -1):
            for fam in FAMS:
                for _ in range(12):
                    c = rng.choice([0.0, .3, 1.0, round(rng.uniform(-5, 5), 2), rng.uniform(-5, 5), rng.uniform(-1e3, 1e3)])
                    s = -kind * rng.choice([1.0, 1.0, 2.5, 1e-10, 1e8, 1e-150, 1e150, 10.0 ** rng.randint(-12, 12)])
                    off = rng.choice([0.0, 0.0, 0.0, 1.0, -3.0, 1e6]) if abs(s) == 1 else 0.0
                    if fam == "expm":
                        c = rng.choice([0.0, .3, 2.0])
                    a, b = c - rng.choice([1.0, .5, rng.uniform(.01, 3), rng.uniform(0, 10)]), c + rng.choice([1.0, .25, rng.uniform(.01, 3), rng.uniform(0, 10)])
                    mode = rng.random()
                    if mode < .08:
                        a, b = b, a
                    elif mode < .2:
                        a, b = c + .1, c + .7
                    elif mode < .3:
                        a, b = c - .7, c - .1
                    elif mode < .36:
                        a = c
                    elif mode < .42:
                        b = c
                    elif mode < .46:
                        a = b = c
                    elif mode < .5:
                        a, b = c - 4e-9, c + 3e-9
                    if fam == "mono" and rng.random() < .5:
                        s = -s
                    ts.append(["golden %d %s %r %r %r %r %r" % (kind, fam, c, s, off, a, b)])
            # wide brackets, and wrong kind of extremum: stays inside
            for fam in ("vee", "quad"):
                ts.append(["golden %d %s 12.5 %r 0.0 -9000.0 9000.0" % (kind, fam, -kind)])
                ts.append(["golden %d %s 0.0 %r 0.0 -1e9 1e9" % (kind, fam, -kind)])
                ts.append(["golden %d %s 1.0 %r 0.0 0.0 3.0" % (kind, fam, kind)])
            for _ in range(40):
                d = rng.randint(1, 4)
                z = sorted(rng.sample([-3.0, -2.0, -1.5, -1.0, -.5, 0.0, .25, .5, 1.0, 1.5, 2.0, 3.0], d))
                p = integ(from_roots(z, rng.choice([1.0, -1.0, .5, 2.0])), rng.choice([0.0, 3.0, -100.0]))
                r = rng.choice(z)
                mode = rng.random()
                if mode < .6:
                    x = repr(r + rng.choice([1, -1]) * rng.choice([1e-4, 3e-5, 1e-5]))
                elif mode < .7:
                    x = "def"
                elif mode < .85:
                    p, x = rng.choice([[0.0, 1.0], [1.0], [0.0, 1.0, 0.0, 1.0], [1.0, 0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]]), rng.choice(["def", "0.5", "-2.0"])
                else:
                    x = repr(rng.uniform(-4, 4))
                ts.append(["newton %d %s %s" % (kind, vec(p), x)])
            for _ in range(40):
                mode = rng.random()
                if mode < .4:
                    c, k = rng.choice([0.0, .3, -2.0, rng.uniform(-5, 5)]), rng.choice([1.0, -1.0, .5, -3.0, 1e-6, -1e6])
                    p = [k * c * c, -2 * k * c, k]
                    a, b = c - rng.uniform(.01, 5), c + rng.uniform(.01, 5)
                    if rng.random() < .15:
                        a, b = b, a
                    elif rng.random() < .2:
                        a, b = c + .1, c + 2
                else:
                    d = rng.randint(1, 4)
                    z = sorted(rng.sample([-3.0, -2.0, -1.5, -1.0, -.5, 0.0, .25, .5, 1.0, 1.5, 2.0, 3.0], d))
                    p = integ(from_roots(z, rng.choice([1.0, -1.0, .5, 2.0])), 0.0)
                    a, b = sorted([rng.uniform(-4, 4), rng.uniform(-4, 4)])
                    if rng.random() < .3:
                        r = rng.choice(z)
                        a, b = r - .2, r + .2
                ts.append(["bisect %d %s %r %r" % (kind, vec(p), a, b)])
            for k, n in (("1", 1), ("2", 2), ("3", 3), ("dyn", 2)):
                for m in ("grad", "lingrad", "best"):
                    for _ in range(4):
                        mode = rng.random()
                        sg = -kind if mode < .75 else kind
                        terms = []
                        hi = 30.0 if m == "grad" else 6.0
                        for i in range(n):
                            ei = [0] * n
                            ei[i] = 2
                            terms.append((sg * round(rng.uniform(1, hi), 2), list(ei)))
                            ei[i] = 1
                            terms.append((round(rng.uniform(-5, 5), 2), list(ei)))
                            if i:
                                ei[i - 1] = 1
                                terms.append((round(rng.uniform(-.5, .5), 2), list(ei)))
                        terms.append((rng.choice([0.0, 1.0, -7.0]), [0] * n))
                        if .65 < mode < .75:
                            ei = [0] * n
                            ei[0] = 4
                            terms.append((sg * rng.choice([1.0, .1]), ei))
                        x = [round(rng.uniform(-4, 4), 2) for _ in range(n)]
                        if rng.random() < .1:
                            x = [0.0] * n
                        if mode < .25:
                            tol, mx = "def", 0
                        elif mode < .75:
                            tol, mx = rng.choice(["1e-2", "1e-3", "1e-4", "1e-5", ".5", "10.0"]), 20000
                        else:
                            tol, mx = rng.choice(["1e-3", "1e-1"]), rng.choice([60, 400])
                        if mode >= .75 and m == "best":
                            m2 = "lingrad"
                        else:
                            m2 = m
                        ts.append(["grad %s %s %d %d %d %s %s %r %s %d" % (k, m2, kind, n, len(terms), " ".join("%r %s" % (c, " ".join(map(str, e))) for c, e in terms), vec(x), rng.choice([-.005, -.005, -.01, -.004]), tol, mx)])
            # tolerances tighter and looser than the default on ill-scaled quadratics
            for m in ("grad", "lingrad", "best"):
                for _ in range(8):
                    a, b = rng.uniform(1, 2), rng.uniform(4, 12)
                    ts.append(["grad 2 %s %d 2 4 %r 2 0 %r 0 2 %r 1 0 %r 0 1 2 %r %r -0.005 %s 20000" % (m, kind, -kind * a, -kind * b, rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.choice(["1e-5", "1e-4", "2e-5"]))])
            # steps of the wrong sign, steep functions next to their extremum, divergence
            ts.append(["grad 1 grad %d 1 1 %r 2 1 1.0 0.005 1e-3 100" % (kind, -1.0 * kind)])
            ts.append(["grad 1 grad %d 1 1 %r 2 1 1.0 0.0 1e-3 100" % (kind, -1.0 * kind)])
            ts.append(["grad 1 grad %d 1 1 %r 2 1 1e-8 -0.005 1e-3 100" % (kind, -1e4 * kind)])
            ts.append(["grad 2 grad %d 2 2 %r 2 0 %r 0 2 2 1e-8 2e-8 -0.005 1e-3 100" % (kind, -1e4 * kind, -2e4 * kind)])
            for m in ("grad", "lingrad"):
                ts.append(["grad 2 %s %d 2 2 %r 4 0 %r 0 4 2 1.0 2.0 -0.005 1e-3 300" % (m, kind, 1.0 * kind, 2.0 * kind)])
                ts.append(["grad 2 %s %d 2 2 1.0 1 0 2.0 0 1 2 1.0 2.0 -0.005 1e-3 300" % (m, kind)])
                ts.append(["grad 2 %s %d 2 1 3.0 0 0 2 1.0 2.0 -0.005 1e-3 300" % (m, kind)])
    return {"main": ts}
