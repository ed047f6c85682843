HARNESS, MODULE = "c13.cpp", "Poly"
MACHINE = ("P0", "PStep", "PNext")
MODELS = [{"module": "PolyModel", "cfg": "PolyModel.cfg"}]
A = ["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def num(rng):
    m = rng.random()
    return 0.0 if m < .15 else float(rng.randint(-4, 4)) if m < .4 else rng.gauss(0, 1) * 10.0 ** rng.randint(-3, 3) if m < .5 else rng.gauss(0, 2)


def pol(rng, lo=0, hi=7):
    n = rng.randint(lo, hi)
    c = [num(rng) for _ in range(n)]
    m = rng.random()
    if m < .1:
        c += [0.0] * rng.randint(1, 3)
    elif m < .15:
        c = [0.0] * n
    elif m < .2 and n:
        c[-1] = 1e-18
    return c


def mulp(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def divisor(rng):
    d = pol(rng, 1, 4)
    k = max([i for i, x in enumerate(d) if abs(x) > 1e-10], default=None)
    if k is None:
        return [0.0] * len(d) if rng.random() < .1 else [2.0]
    if abs(d[k]) < .05:
        d[k] = 1.0
    return d


def dividend(rng, d):
    if rng.random() < .4:     # an exact multiple
        i = [float(rng.randint(-3, 3)) for _ in range(rng.randint(1, 4))]
        return mulp(i, d) if d else i
    return pol(rng)


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    for _ in range(60 if q else 2500):
        t = ["set " + vec(pol(rng))]
        size = 8
        for _ in range(rng.randint(3, 8)):
            m = rng.random()
            if m < .3:
                t.append("asg %s %s" % (rng.choice("+-"), "self" if rng.random() < .2 else "other " + vec(pol(rng))))
            elif m < .5 and size < 24:
                t.append("asg * %s" % ("self" if rng.random() < .2 else "other " + vec(pol(rng, 0, 4))))
                size *= 2
            elif m < .65:
                t.append("asg / other " + vec(divisor(rng)))
            elif m < .8:
                t.append("asgr %s %r" % (rng.choice("*/"), num(rng) or 2.0))
            elif m < .9:
                t.append("trim")
            else:
                t.append("bin %s %s %s" % (rng.choice("+-*"), vec(pol(rng)), vec(pol(rng))))
        ts.append(t)
        for f in "+-*":
            ts.append(["bin %s %s %s" % (f, vec(pol(rng)), vec(pol(rng))), "rbin %s %r %s" % (f, num(rng), vec(pol(rng)))])
        d = divisor(rng)
        d2 = divisor(rng)
        p = pol(rng)
        p2 = list(p)
        m = rng.random()
        if m < .3:
            p2 += [0.0] * rng.randint(1, 2)
        elif m < .6 and p2:
            p2[rng.randrange(len(p2))] += rng.choice([1.0, 1e-3, -1e-9])
        elif m < .8:
            p2.append(1.0)
        ts.append(["bin / %s %s" % (vec(dividend(rng, d)), vec(d)), "bin / %s %s" % (vec(dividend(rng, d2)), vec(d2)), "binr * %s %r" % (vec(pol(rng)), num(rng)), "binr / %s %r" % (vec(pol(rng)), num(rng))])
        ts.append(["eq %s %s" % (vec(p), vec(p2)), "eq %s %s" % (vec(p2), vec(p)), "order " + vec(pol(rng)), "set " + vec(pol(rng)), "trim", "mono %d %r" % (rng.randint(0, 6), num(rng))])
        x = rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3), rng.uniform(-3, 3)])
        ts.append(["eval %s %r" % (vec(pol(rng, 0, 12)), x), "ceval %s %r %r" % (vec(pol(rng)), x, rng.uniform(-2, 2)), "deriv " + vec(pol(rng)), "derivat %s %r" % (vec(pol(rng, 0, 12)), x),
                   "integ " + vec(pol(rng)), "integat %s %r %r" % (vec(pol(rng, 0, 12)), x, rng.uniform(-3, 3)), "froots " + vec([num(rng) for _ in range(rng.randint(0, 6))])])
        a, b = rng.choice([(num(rng), num(rng)), (rng.uniform(-1, 1), rng.uniform(-1, 1)), (rng.uniform(-1, 1), 10.0 ** rng.uniform(-14, -3)), (rng.gauss(0, 1) * 1e4, num(rng)), (2.0, 1.0), (-3.0, 2.25), (0.0, num(rng)), (num(rng), 0.0)])
        k = rng.choice([1.0, 1.0, 2.0, -.5, num(rng) or 1.0])
        ts.append(["quad " + vec([b * k, a * k, k] + [0.0] * rng.choice([0, 0, 0, 1, 2]))])
        if rng.random() < .2:
            ts.append(["quad " + vec(rng.choice([[1.0, 2.0], [1.0, 2.0, 0.0], [1.0, 2.0, 3.0, 4.0], [0.0, 0.0, 0.0]]))])
        rs = [rng.choice([float(rng.randint(-3, 3)), rng.uniform(-3, 3)]) for _ in range(rng.randint(1, 4))]
        c = [k]
        for r in rs:
            c = mulp(c, [-r, 1.0])
        if rng.random() < .3:
            c = [num(rng) for _ in range(rng.randint(2, 5))] + [rng.choice([1.0, -1.0, 2.5])]
        ts.append(["roots %s %r %d" % (vec(c), rng.choice([1e-8, 1e-8, 1e-4]), rng.choice([0, 0, 20, 57]))])
    return {"main": ts}
