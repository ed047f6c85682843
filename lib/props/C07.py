REPEAT = 2
HARNESS, MODULE = "c07.cpp", "Matr"
MODELS = [{"module": "MatrModel", "cfg": "MatrModel.cfg"}, {"module": "MatrModel", "cfg": "MatrModel3.cfg", "tier": "thorough"}]
A = ["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "col", "flags": A}, {"name": "row", "flags": A + ["-DTHEORETICA_ROW_FIRST"]}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]
from props.C06 import num
SHAPES = [(1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 5)]
SAME = ["a a e", "e a a", "a e a", "b b b", "c c c", "d d d", "a a w", "w w a", "w w w", "c c w", "b b w"]
PROD = ["c a b", "d b a", "a e d", "e c a", "b d b", "b b c", "c c c", "d d d", "c e b", "w a w", "w b w", "w w w", "w c w", "w w a", "w w b"]
MV = ["y a x", "x b y", "y c y", "x d x", "y w x", "y e x"]


def pos(rng, r, n, k):
    rr = n if r in "ace" else k
    cc = k if r in "ade" else n
    return rng.randrange(rr), rng.randrange(cc), rr, cc


def op(rng, kind, n, k):
    dyn = kind == "dyn"
    t = rng.choice("abcdew")
    x, y = num(rng), num(rng)
    i, j, rr, cc = pos(rng, t, n, k)
    i2, j2 = rng.randrange(rr + (rng.random() < .1)), rng.randrange(cc + (rng.random() < .1))
    s = rng.choice(SAME)
    m = rng.choice(PROD)
    wild = dyn and rng.random() < .15
    if wild:
        s = m = " ".join(rng.choice("abcdew") for _ in range(3))
    s2 = s[:3]
    h = rng.randrange(4)
    o = rng.choice(["add", "iadd", "lin2", "lin3", "mul", "mul", "mul", "imul", "tmul", "mult", "tr", "itr", "scal", "iscal", "div", "idiv", "set", "set", "elem", "elem", "sw", "sw", "shift", "zero", "ident",
                    "diag", "rows", "resize", "resize", "copy", "copyw", "vset", "mv", "mv", "vm", "apply", "eq", "eqw", "q", "q", "q"])
    if o == "add":
        return "%s %s %d" % (rng.choice(["add", "sub"]), s, h)
    if o == "iadd":
        return "%s %s" % (rng.choice(["iadd", "isub"]), s2)
    if o == "lin2":
        return "lin2 %s %s %s" % (s2, x, y)
    if o == "lin3":
        return "lin3 %s %s %s" % (s, x, y)
    if o == "mul":
        return "mul %s %d" % (m, h)
    if o == "imul":
        return "imul " + rng.choice(["a d", "e d", "c c", "d d", "b c"] + (["a b", "c a", "w a"] if dyn else []))
    if o == "tmul":
        return "tmul " + rng.choice(["d a e", "c b b"] + ([m] if dyn else []))
    if o == "mult":
        return "mult " + rng.choice(["c a e", "d b b"] + ([m] if dyn else []))
    if o == "tr":
        return "%s %s %d" % (rng.choice(["tr", "herm"]), rng.choice(["b a", "a b", "b e", "c c", "d d"] + (["a a", "w b", "e w"] if dyn else [])), h)
    if o == "itr":
        return "%s %s" % (rng.choice(["itr", "iherm"]), rng.choice("cdcdw"))
    if o == "scal":
        return "scal %s %s %d" % (s2, x, h)
    if o == "iscal":
        return "iscal %s %s %d" % (t, x, h)
    if o == "div":
        return "div %s %s" % (s2, rng.choice([x, x, x, "0.0", "1e-17"]))
    if o == "idiv":
        return "idiv %s %s" % (t, rng.choice([x, x, x, x, "0.0"]))
    if o == "set":
        return "set %s %d %d %s %d" % (t, i, j, x, h)
    if o == "elem":
        return "elem %s %d %d %d" % (t, i, j, h)
    if o == "sw":
        return "swr %s %d %d" % (t, i, i2) if rng.random() < .5 else "swc %s %d %d" % (t, j, j2)
    if o == "shift":
        return "shift %s %s" % (t, x)
    if o in ("zero", "ident"):
        return "%s %s" % (o, t)
    if o == "diag":
        a, b = (rr, cc) if rng.random() < .9 or t == "w" else (cc, rr)
        return "diag %s %d %d %s %d" % (t, a, b, x, rng.randrange(2))
    if o == "rows":
        l = rng.choice([[2], [3], [2, 2], [2, 3], [3, 3]])
        return "rows %s %d %s" % (t, len(l), " ".join("%d %s" % (z, " ".join(num(rng) for _ in range(z))) for z in l))
    if o == "resize":
        r = t if dyn else "w"
        return "resize %s %d %d" % (r, rng.randint(1, 5), rng.randint(1, 5)) if rng.random() < .6 else "resize %s %d %d" % (r, n, k)
    if o == "copy":
        return "copy %s %d" % (s2, h)
    if o == "copyw":
        return "copy %s %d" % (rng.choice(["w %s", "%s w"]) % t, h)
    if o == "vset":
        r = rng.choice("xy")
        z = k if r == "x" else n
        return "vset %s %d %s" % (r, z, " ".join(num(rng) for _ in range(z)))
    if o == "mv":
        return "mv %s %d" % (rng.choice(MV), h)
    if o == "vm":
        return "vm " + rng.choice(["x y a", "y x b", "y y c"])
    if o == "apply":
        return "apply " + rng.choice(["y c", "x d", "x d"] + (["x a"] if rng.random() < .3 else []))
    if o == "eq":
        return "eq " + s2
    if o == "eqw":
        return "eq %s w" % t
    return "%s %s" % (rng.choice(["trace", "dprod", "preds", "dens", "iter", "print", "size"]), t)


def traces(check, rng):
    q = check.tier == "quick"
    ts = check.generate("MatrModel", "MatrGen.cfg", ["-simulate", "num=%d" % (4 if q else 100), "-depth", "20", "-seed", str(check.seed)])
    ts = rng.sample(ts, min(len(ts), 120 if q else 5000))
    for kind in ("fix", "dyn"):
        for (n, k) in SHAPES + ([(1, 1), (5, 3), (6, 6), (1, 6), (8, 8), (9, 7), (12, 3), (2, 17)] if kind == "dyn" else []):
            for _ in range((16 if q else 300) if n < 8 and k < 8 else (2 if q else 40)):
                t = ["new %s %d %d" % (kind, n, k)]
                for r in "abcdew":
                    rr, cc = pos(rng, r, n, k)[2:]
                    if r == "w":
                        rr, cc = n, k
                    if rng.random() < .8:
                        t += ["set %s %d %d %s %d" % (r, i, j, num(rng), rng.randrange(3)) for i in range(rr) for j in range(cc)]
                t += ["vset x %d %s" % (k, " ".join(num(rng) for _ in range(k))), "vset y %d %s" % (n, " ".join(num(rng) for _ in range(n)))]
                t += [op(rng, kind, n, k) for _ in range(rng.choice([4, 8, 16]))]
                ts.append(t + ["iter a", "print w", "size b"])
    for _ in range(40 if q else 1500):
        nums = lambda z: " ".join(num(rng) for _ in range(2 * z))
        n, k = rng.randint(1, 4), rng.randint(1, 4)
        h = rng.randrange(2)
        ts.append(["cherm fix %d %s" % (h, nums(6)), "cherm dyn %d %d %d %s" % (h, n, k, nums(n * k)), "ctr fix %d %s" % (h, nums(6)), "ctr dyn %d %d %d %s" % (h, n, k, nums(n * k)),
                   "cmul fix %d %s" % (h, nums(12)), "cmul dyn %d %d %d %s" % (h, n, k, nums(2 * n * k)), "ciherm fix " + nums(9), "ciherm dyn %d %s" % (n, nums(n * n))])
    return {"main": ts}
