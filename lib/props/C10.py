HARNESS, MODULE = "c10.cpp", "Dist"
MACHINE = ("D0", "DStep", "DNext")
MODELS = [{"module": "DistModel", "cfg": "DistModel.cfg"}]
A = ["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "nox86", "flags": ["-O2", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"}]
EPS = 2.220446049250313e-16


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def num(rng):
    return rng.choice([0.0, -0.0, 1.0, -1.0, float(rng.randint(-9, 9)), rng.gauss(0, 1), rng.gauss(0, 1), rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12)])


def pair(rng, n):
    """Two vectors: unrelated, equal, differing in one place, proportional, or close."""
    v = [num(rng) for _ in range(n)]
    m = rng.random()
    if m < .1:
        return v, list(v)
    if m < .35:
        w = list(v)
        i = rng.choice([0, n - 1, rng.randrange(n)])
        w[i] += rng.choice([1.0, -.5, 1e-3, 1e-9, 2e-16, 1e-5])
        return v, w
    if m < .45:
        s = rng.choice([2.0, -1.0, .5, -3.0])
        return v, [s * x for x in v]
    if m < .55:
        return v, [x + rng.gauss(0, 1) * 10.0 ** rng.randint(-10, -1) for x in v]
    return v, [num(rng) for _ in range(n)]


def traces(check, rng):
    q = check.tier == "quick"
    cmds = []
    for _ in range(90 if q else 4000):
        def n():
            return rng.choice([1, 2, 3, 4, 5, 8, 13])
        for k in ("l1", "l2", "linf", "lp"):
            cmds.append("norm %s %s %d %s" % (rng.choice(["fix", "dyn", "std"]), k, rng.randint(1, 7), vec([num(rng) for _ in range(n())])))
        for k in ("l1", "l2", "linf"):
            m = n()
            cmds.append("cnorm %s %s %s %s" % (rng.choice(["fix", "dyn"]), k, vec([num(rng) for _ in range(m)]), vec([num(rng) for _ in range(m)])))
        for k in ("euclid", "mink", "manh", "cheb", "discr", "canb", "cos", "hamm"):
            v, w = pair(rng, n())
            if k == "cos":
                while not (any(v) and any(w)):
                    v, w = pair(rng, n())
            if rng.random() < .05:
                w = w + [1.0] if rng.random() < .5 else (w[:-1] or [1.0, 2.0])
            t = rng.choice([EPS, EPS, .25, .5, 1e-6, 0.0])
            cmds.append("dist %s %s %d %r %s %s" % (rng.choice(["fix", "dyn"]), k, rng.randint(1, 7), t, vec(v), vec(w)))
        a, b = num(rng), num(rng)
        cmds.append("dist num %s %d 0 1 %r 1 %r" % (rng.choice(["euclid", "mink"]), rng.randint(1, 5), a, b))
        for k in ("herm", "euclid"):
            m = n()
            v, w = pair(rng, m)
            x, y = pair(rng, m)
            if rng.random() < .05:
                w, y = w + [1.0], y + [2.0]
            kind = rng.choice(["fix", "dyn"])
            if k == "herm" or len(v) == len(w):
                cmds.append("cdist %s %s %s %s %s %s" % (kind, k, vec(v), vec(x), vec(w), vec(y)))
        cmds.append("cdist num euclid 1 %r 1 %r 1 %r 1 %r" % (num(rng), num(rng), num(rng), num(rng)))
    return {"main": [[c] for c in cmds]}
