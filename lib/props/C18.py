HARNESS, MODULE = "c18.cpp", "Deriv"
MACHINE = ("G0", "GStep", "GNext")
MODELS = [{"module": "DerivModel", "cfg": "DerivModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]
FAM = ["sin", "exp", "abs", "cubic", "deg6", "hash", "hash", "const"]


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    for _ in range(1 if q else 12):
        for r in ["central", "forward", "backward", "ridders2", "deriv", "deriv2", "ridders"]:
            for fam in FAM:
                for how in ("ptr", "lambda", "std"):
                    for h in ["default", repr(2.0 ** rng.randint(-20, 2)), repr(rng.uniform(1e-6, 1)), repr(-rng.uniform(1e-3, 1))]:
                        x = rng.choice([0.0, 1.0, -1.0, rng.uniform(-5, 5), rng.uniform(-100, 100), rng.uniform(-1e-3, 1e-3)])
                        ts.append(["%s %s %r %s %d %s" % (r, fam, x, h, rng.randint(1, 7), how)])
        for d in range(0, 9):
            for fam in ("hash", "sin"):
                ts.append(["ridders %s %r %r %d ptr" % (fam, rng.uniform(-3, 3), rng.choice([.1, .01, 1.0, .5]), d)])
    return {"main": ts}
