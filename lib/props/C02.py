from props.C01 import word
HARNESS, MODULE = "c02.cpp", "Ints"
MODELS = [{"module": "IntsModel", "cfg": "IntsModel2.cfg"}, {"module": "IntsModel", "cfg": "IntsModel3.cfg"}]
CAMPAIGNS = [{"name": "O1", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=integer-divide-by-zero"]}]


def traces(check, rng):
    q = check.tier == "quick"
    pts = []
    for n in range(256):
        pts.append((8, n))
    for n in (range(65536) if not q else list(range(0, 65536, 61)) + list(range(65400, 65536))):
        pts.append((16, n))
    for w in (16, 32, 64):
        top = (1 << w) - 1
        for k, m in ((2, 1 << (w // 2)), (3, int(round(2 ** (w / 3))) + 2)):
            rs = [1, 2, 3, 5, 6, 7, m - 1, m - 2, m - 3, m // 2, m // 2 + 1] + [rng.randrange(1, m) for _ in range(60 if q else 1500)]
            for r in rs:
                for d in (-1, 0, 1):
                    pts.append((w, r ** k + d))
                pts.append((w, r * (r + 1)))
        for b in range(w):
            for d in (-2, -1, 0, 1, 2):
                pts.append((w, (1 << b) + d))
        pts += [(w, top), (w, top - 1), (w, top // 2), (w, top // 2 + 1)]
        pts += [(w, word(rng, w)) for _ in range(150 if q else 5000)]
    pts = sorted(set((w, n) for w, n in pts if 0 <= n < (1 << w)))
    ts = []
    for w, n in pts:
        t = ["isqrt %d %d" % (w, n), "icbrt %d %d" % (w, n), "pad2 %d %d" % (w, n)]
        if n > 0:
            t.append("ilog2 %d %d" % (w, n))
        ts.append(t)
    for n in range(0, 34):
        ts.append(["fact %d" % n, "dfact %d" % n, "catalan %d" % n])
    for n in range(0, 70):
        ts.append(["binom %d %d" % (n, k) for k in range(n + 1)])
    for n in (100, 1000, 65536, 100000):
        ts.append(["binom %d %d" % (n, k) for k in (0, 1, 2, 3, n - 3, n - 2, n - 1, n)])
    for x in (0, 1, 2, 3, 5, 7, 10, 20, 25, 100, 1000, 65535, 4294967295):
        for n in range(0, 25):
            ts.append(["falling %d %d" % (x, n), "rising %d %d" % (x, n)])
    for x in (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 15, 16, 100, 255, 65535):
        for n in range(0, 65):
            ts.append(["ipowu %d %d" % (x, n)])
    for n in list(range(-40, 80)) + [127, 128, 129, 255, 256, 500, 1000, -127, -128, -500]:
        for x in [2.0, -2.0, 1.0, -1.0, 0.5, 3.0, -1.5] + [rng.uniform(-3, 3) for _ in range(2 if q else 40)] + [1 + rng.uniform(-.01, .01)]:
            ts.append(["pow %r %d" % (x, n)])
    for _ in range(100 if q else 3000):
        ts.append(["%s %r %d" % (rng.choice(["ffall", "frise"]), rng.uniform(-10, 10), rng.randrange(0, 15))])
    for i in range(-3, 4):
        ts.append(["delta %d %d" % (i, j) for j in range(-3, 4)])
    return {"main": ts}
