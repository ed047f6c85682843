HARNESS, MODULE = "c15.cpp", "Fft"
MACHINE = ("F0", "FStep", "FNext")
MODELS = [{"module": "FftModel", "cfg": "FftModel.cfg"}, {"module": "FftModel", "cfg": "FftModel4.cfg", "tier": "thorough"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def sig(rng, n):
    m = rng.random()
    if m < .3:      # an impulse
        x = [0.0] * n
        if n:
            x[rng.randrange(n)] = 1.0
        return x
    if m < .4:
        return [float(rng.randint(-5, 5)) for _ in range(n)]
    if m < .5:
        return [1.0] * n
    s = 10.0 ** rng.randint(-6, 6)
    return [rng.gauss(0, 1) * s for _ in range(n)]


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    sizes = [0, 1, 2, 2, 4, 4, 8, 8, 16, 16, 32, 32, 64] + ([] if q else [128, 256])
    for _ in range(6 if q else 60):
        for n in sizes:
            for inv in (0, 1):
                z = sig(rng, n)
                y = sig(rng, n) if rng.random() < .7 else [0.0] * n
                ts.append(["fft %s %d %s %s" % (rng.choice(["fix", "dyn", "dyn2"]), inv, vec(z), vec(y))])
            if n:
                ts.append(["round %s 0 %s %s" % (rng.choice(["fix", "dyn"]), vec(sig(rng, n)), vec(sig(rng, n)))])
        for n in [3, 5, 6, 7, 9, 12, 15, 17, 31, 33, 63, 65]:
            ts.append(["fft %s %d %s %s" % (rng.choice(["fix", "dyn"]), rng.randint(0, 1), vec([1.0] * n), vec([2.0] * n))])
    for n in [128, 256, 512, 1024, 2048, 4096, 8192]:
        if rng.random() < (.4 if q else 1):
            ts.append(["round dyn 0 %s %s" % (vec(sig(rng, n)), vec(sig(rng, n)))])
    if not q or rng.random() < .3:
        x = [0.0] * 2048
        x[rng.randrange(2048)] = 1.0
        ts += [["fft dyn %d %s %s" % (i, vec(x), vec([0.0] * 2048))] for i in (0, 1)]
    for n in ([512, 1024] if q else [512, 1024, 4096]):
        for inv in (0, 1):
            ts.append(["fft dyn %d %s %s" % (inv, vec(sig(rng, n)), vec(sig(rng, n)))])
    return {"main": ts}
