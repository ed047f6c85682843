from props.C21 import vec

HARNESS, MODULE = "c28.cpp", "Par"
MACHINE = ("P0", "PStep", "PNext")
MODELS = [{"module": "ParModel", "cfg": "ParModel.cfg"}]
CAMPAIGNS = [{"name": "tsan", "flags": ["-O1", "-g", "-fopenmp", "-fsanitize=thread", "-DSHIM"]},
             {"name": "perm", "flags": ["-O0", "-fopenmp", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS", "-DSHIM", "-DPERM"]},
             {"name": "gomp", "flags": ["-O2", "-fopenmp"]},
             {"name": "seq", "flags": ["-O2", "-Wno-unknown-pragmas"], "tier": "thorough"}]
FUN = "square cube abs sqrt cbrt exp ln log2 log10 sin cos tan cot asin acos atan sinh cosh tanh coth pow powf".split()
POS = {"sqrt", "ln", "log2", "log10", "powf"}
UNIT = {"asin", "acos"}
FUN2 = "square cube sqrt exp ln sin cos tan sinh cosh tanh pow".split()


def arg(f, rng):
    return rng.uniform(.05, 9) if f in POS else rng.uniform(-.99, .99) if f in UNIT else rng.choice([-1, 1]) * rng.uniform(.1, 6)


def traces(check, rng):
    ts, K = [], (1 if check.tier == "quick" else 8)
    for team in (1, 2, 3, 4, 8):
        for n in list(range(0, 10)) + [16, 17, 33, 64, 100, 257, 1000]:
            for _ in range(1 if check.tier == "quick" and n > 4 else 2 if check.tier == "quick" else 10):
                ts.append(["apply %d %d %s %d" % (team, rng.randint(1, 9999), rng.choice(["std", "vec", "vec", "fix"]), n)])
    for f in FUN:
        for _ in range(4 * K):
            n = rng.choice([0, 1, 2, 3, 7, 8, 25, 60])
            ts.append(["elem %d %d %s %s %d %r %s" % (rng.choice([2, 3, 4, 8]), rng.randint(1, 9999), rng.choice(["std", "vec"]), f, rng.randint(-3, 6), rng.uniform(-2, 3), vec([arg(f, rng) for _ in range(n)]))])
        ts.append(["elem 4 1 vec %s 3 1.5 %s" % (f, vec([arg(f, rng) for _ in range(40)]))])
    for f in FUN2:
        for k in ("dual", "cplx"):
            if k == "cplx" and f in ("sinh", "cosh", "tanh"):
                continue
            for _ in range(2 * K):
                ts.append(["elem %d %d %s %s %d 0.0 %s" % (rng.choice([2, 4]), rng.randint(1, 9999), k, f, rng.randint(1, 5), vec([rng.uniform(.1, 2) for _ in range(rng.choice([2, 8, 30]))]))])
    return {"main": ts}
