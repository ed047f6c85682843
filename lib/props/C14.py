HARNESS, MODULE = "c14.cpp", "Orth"
MACHINE = ("O0", "OStep", "ONext")
MODELS = [{"module": "OrthModel", "cfg": "OrthModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def traces(check, rng):
    q = check.tier == "quick"
    top = 22 if q else 30
    ts = []
    for f in ("leg", "lag", "her", "ch1", "ch2"):
        ts += [["poly %s %d 0" % (f, n)] for n in range(top)]
    for n in range(14):
        for al in [0.0, 1.0, .5, -.5, rng.uniform(-.9, 4), rng.uniform(-.9, 4)]:
            ts.append(["poly glag %d %r" % (n, al)])
    for f in ("legendre", "laguerre", "hermite"):
        ts += [["table %s %d" % (f, n), "rule %s %d" % (f, n)] for n in (2, 4, 8, 16)]
    ts += [["rule legendre %d" % n] for n in range(1, 18)]
    for l in range(0, 8 if q else 11):
        for m in range(-l, l + 1):
            for _ in range(1 if q else 8):
                ts.append(["assoc %d %d %r" % (l, m, rng.choice([0.0, 1.0, -1.0, .5, rng.uniform(-1, 1), rng.uniform(-1, 1)])), "even %d %d" % (l, m)])
    # beyond 20! no factorial fits an integer
    for l in range(8, 15) if q else range(11, 19):
        for m in rng.sample(range(-l, l + 1), 3) + [-l, l, -(l - 1)]:
            ts.append(["assoc %d %d %r" % (l, m, rng.choice([.5, rng.uniform(-1, 1), rng.uniform(-1, 1)])), "even %d %d" % (l, m)])
    ts += [["lnorm %d" % n, "hnorm %d" % n] for n in list(range(30)) + [40, 60, 100, 140]]
    return {"main": ts}
