HARNESS, MODULE = "c06.cpp", "Vect"
MODELS = [{"module": "VectModel", "cfg": "VectModel.cfg"}]
CAMPAIGNS = [{"name": "O1", "flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]}, {"name": "O3", "flags": ["-O3"], "tier": "thorough"}]
R = "abc"


def num(rng):
    k = rng.randrange(6)
    if k < 2:
        return repr(float(rng.randint(-9, 9)))
    if k == 2:
        return repr(rng.randint(-40, 40) / 8)
    if k == 3:
        return repr(rng.uniform(-10, 10))
    if k == 4:
        return rng.choice(["0.1", "1.0", "-1.0", "0.0", "2.0"])
    return repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-6, 6))


def op(rng, kind, n):
    t, p, q = (rng.choice(R) for _ in range(3))
    x = num(rng)
    o = rng.choice(["add", "sub", "vsum3", "vdiff3", "iadd", "isub", "vsum2", "vdiff2", "neg", "pos", "normalized", "copy", "copy", "copyw", "smul", "smul", "sdiv", "vscal3",
                    "imul", "idiv", "vscal2", "set", "set", "set", "setw", "fill", "zeroes", "base", "list", "dyn", "dyn", "cross", "cross", "normalize", "dot", "dot", "dotw", "eq", "eqw", "norm", "sqrnorm",
                    "iter", "print", "size", "elem", "mixadd"])
    if o in ("add", "sub", "vsum3", "vdiff3"):
        return "%s %s %s %s" % (o, t, p, q)
    if o in ("iadd", "isub", "vsum2", "vdiff2", "neg", "pos"):
        return "%s %s %s" % (o, t, p if rng.random() < .75 or o in ("neg", "pos") else "w")
    if o == "normalized":
        return "normalized %s %s%s" % (t, p, rng.choice(["", " 1"]))
    if o == "copy":
        return "copy %s %s %d" % (t, p, rng.randrange(3))
    if o == "copyw":
        return rng.choice(["copy w %s %d", "copy %s w %d"]) % (t, rng.randrange(3))
    if o in ("smul", "sdiv", "vscal3"):
        return "%s %s %s %s %d" % (o, t, p, x if o != "sdiv" or float(x) else "3.0", rng.randrange(2))
    if o in ("imul", "vscal2"):
        return "%s %s %s" % (o, t, x)
    if o == "idiv":
        return "idiv %s %s" % (t, rng.choice([x, x, x, "0.0", "1e-20", "-1e-17"]))
    if o == "set":
        return "set %s %d %s %s" % (t, rng.randrange(n), x, rng.choice(["idx", "at", "set", "iter"]))
    if o == "setw":
        return "set w %d %s idx" % (rng.randrange(n), x)
    if o == "fill":
        return "fill %s %d %s" % (t, n if kind == "fix" or rng.random() < .8 else rng.randint(1, 6), x)
    if o == "zeroes":
        return "zeroes " + t
    if o == "base":
        m = n if kind == "fix" else rng.choice([n, n, rng.randint(1, 6)])
        return "base %s %d %d" % (t, rng.randrange(m) if rng.random() < .9 else m + rng.randrange(2), m)
    if o == "list":
        m = min(5, n) if kind == "fix" and rng.random() < .8 else rng.randint(1, 5)
        return "list %s %d %s" % (t, m, " ".join(num(rng) for _ in range(m)))
    if o == "dyn":
        if kind == "fix":
            return "resize w %d 0" % rng.choice([n, n, rng.randint(1, 7)])
        return rng.choice(["push %s %d %s" % (t, rng.randrange(2), x), "resize %s %d 0" % (t, rng.choice([n, n, n, rng.randint(1, 7)]))])
    if o == "cross":
        if kind == "fix" and n != 3:
            return "neg %s %s" % (t, p)
        return "cross %s %s %s %d" % (t, p, q, rng.randrange(3))
    if o == "normalize":
        return "normalize %s%s" % (t, rng.choice(["", " 1"]))
    if o in ("dot", "dotw"):
        return "dot %s %s %d" % (p, q if o == "dot" else "w", rng.randrange(3))
    if o in ("eq", "eqw"):
        return "eq %s %s" % (p, q if o == "eq" else "w")
    if o in ("norm", "sqrnorm", "print"):
        return "%s %s%s" % (o, p, rng.choice(["", " 1"]))
    if o in ("iter", "size"):
        return "%s %s" % (o, p)
    if o == "elem":
        return "elem %s %d %d" % (p, rng.randrange(n), rng.randrange(3))
    if kind == "dyn":
        return "%s %s %s" % (rng.choice(["addw", "subw"]), t, p)
    return "eq %s w" % p


def traces(check, rng):
    q = check.tier == "quick"
    ts = check.generate("VectModel", "VectGen.cfg", ["-simulate", "num=%d" % (4 if q else 200), "-depth", "20", "-seed", str(check.seed)])
    ts = rng.sample(ts, min(len(ts), 250 if q else 20000))
    for kind in ("fix", "dyn"):
        for n in list(range(1, 7)) + ([8, 9, 16, 17, 33] if kind == "dyn" else []):
            for _ in range((40 if q else 1200) if n < 7 else (3 if q else 100)):
                t = ["new %s %d" % (kind, n)]
                for r in R + "w":
                    if rng.random() < .85:
                        t += ["set %s %d %s idx" % (r, i, num(rng)) for i in range(n)]
                t += [op(rng, kind, n) for _ in range(rng.choice([3, 6, 12, 20]))]
                ts.append(t + ["iter a", "iter b", "iter c"])
    # += on an unset vector
    for n in (1, 2, 3, 4, 5, 9, 17):
        for o in ("iadd a b", "isub a b", "iadd a w", "copy a b 0", "dot a b 0"):
            ts.append(["new dyn %d" % n] + ["set %s %d %s idx" % (r, i, num(rng)) for r in "bcw" for i in range(n)] + ["resize a 0 0", o, "size a", "iter a", "size b", "iter b"])
    for _ in range(60 if q else 2000):
        n = rng.randint(1, 5)
        v, w = ([num(rng) for _ in range(2 * n)] for _ in range(2))
        if all(abs(float(x)) < 1e-3 for x in v):
            v[0] = "1.0"
        ts.append(["cdot %s %d %s %d %s" % (rng.choice(["fix", "dyn"]), 2 * n, " ".join(v), 2 * n, " ".join(w)), "cnorm %s %d %s" % (rng.choice(["fix", "dyn"]), 2 * n, " ".join(v))])
    return {"main": ts}
