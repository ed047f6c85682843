import math

HARNESS, MODULE = "c30.cpp", "Special"
REPEAT = 2
MACHINE = ("S0", "SStep", "SNext")
MODELS = [{"module": "SpecialModel", "cfg": "SpecialModel.cfg"}]
CAMPAIGNS = [{"name": "x86", "flags": ["-O1", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]},
             {"name": "portable", "flags": ["-O1", "-DTHEORETICA_DISABLE_X86", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"]},
             {"name": "x86-O3", "flags": ["-O3"], "tier": "thorough"}]


def near_int(rng, n):
    return rng.choice([float(n), math.nextafter(n, 1e9), math.nextafter(n, -1e9), n + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-15, -1)])


def arg(rng):
    return rng.choice([lambda: rng.uniform(0, 10), lambda: rng.uniform(0, 172), lambda: rng.uniform(-10, 0), lambda: rng.uniform(-180, 0), lambda: float(rng.randint(-20, 30)), lambda: rng.randint(-40, 60) / 2,
                       lambda: 10.0 ** rng.uniform(-320, 0), lambda: 10.0 ** rng.uniform(-320, -304), lambda: -10.0 ** rng.uniform(-306, 0), lambda: near_int(rng, rng.randint(-12, 12)), lambda: 10.0 ** rng.uniform(0, 307), lambda: -10.0 ** rng.uniform(0, 20),
                       lambda: float(rng.randint(100, 200)), lambda: rng.uniform(165, 175), lambda: rng.choice([2.0 ** 31, 2.0 ** 32, -2.0 ** 31, 2.0 ** 53, 1e22, 4294967297.0, 4294967296.5, -2147483649.5, -2147483648.5, -4e9 - .25, 0.0, -0.0, 171.0, 172.0]),
                       lambda: near_int(rng, rng.choice([0, 1, 2, 3]))])()


def bounded(x):
    # whole numbers between 1e5 and 2^32 would only be slow
    return 171.0 if 1e5 < x < 2 ** 32 and x == int(x) else x


def call(rng):
    f = rng.choice(["gamma"] * 4 + ["lngamma"] * 4 + ["pi", "beta", "beta", "half", "gammak"])
    if f in ("half", "gammak"):
        return "%s %d" % (f, rng.choice([rng.randint(0, 20), rng.randint(0, 360), rng.randint(160, 180), rng.randint(290, 350), 0, 1, 2, 100000]))
    if f == "beta":
        p = lambda: rng.choice([lambda: rng.uniform(0.01, 10), lambda: rng.uniform(0.1, 100), lambda: float(rng.randint(1, 30)), lambda: 10.0 ** rng.uniform(-12, 6), lambda: rng.randint(1, 20) / 2])()
        return "beta %r %r" % (p(), p())
    return "%s %r" % (f, bounded(arg(rng)))


def traces(check, rng):
    ts = [["gammak %d" % n for n in range(0, 181)], ["half %d" % n for n in range(0, 360, 1 if check.tier == "thorough" else 2)], ["gamma %d" % n for n in range(-30, 180)],
          ["lngamma %d" % n for n in range(-9, 30)]]
    for _ in range(110 if check.tier == "quick" else 900):
        t = []
        for _ in range(10):
            t.append(call(rng))
            if rng.random() < .1:
                t.append(rng.choice(t))
        ts.append(t)
    if check.tier == "thorough":
        ts.append(["gammak 2147483650"])
    return {"main": ts}
