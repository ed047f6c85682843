import math

HARNESS, MODULE = "c31.cpp", "Text"
MACHINE = ("T0", "TStep", "TNext")
MODELS = [{"module": "TextModel", "cfg": "TextModel.cfg"}]
CAMPAIGNS = [{"name": "errno", "flags": ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]},
             {"name": "throw", "flags": ["-O1", "-DTHEORETICA_THROW_EXCEPTIONS"]},
             {"name": "portable", "flags": ["-O2", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"}]


def num(rng):
    k = rng.randrange(12)
    s = rng.choice([1, -1])
    if k < 3:
        return s * float(rng.randint(0, 12)) or 0.0
    if k == 3:
        return s * rng.randint(1, 9999999) / 10.0 ** rng.randint(0, 9)
    if k == 4:      # half way between two decimals of six digits
        return s * (rng.randint(100000, 999999) + .5) * 2.0 ** rng.randint(-6, 6)
    if k == 5:
        return s * (rng.randint(100000, 999999) + .5) * 10.0 ** rng.randint(-12, 12)
    if k == 6:
        return s * 10.0 ** rng.uniform(-320, 308)
    if k == 7:
        return s * math.nextafter(10.0 ** rng.randint(-10, 10), rng.choice([0, 1e300]))
    if k == 8:
        return s * 10.0 ** rng.randint(-8, 8)
    if k == 9:
        return s * 10.0 ** rng.uniform(-18, -14)
    return s * rng.uniform(0, 10.0 ** rng.randint(-6, 8))


def r(rng):
    return "%r" % num(rng)


def vec(rng, n):
    return "%d %s" % (n, " ".join(r(rng) for _ in range(n)))


def mat(rng, n, k):
    return "%d %d %s" % (n, k, " ".join(r(rng) for _ in range(n * k)))


def opt(rng):
    return "nan" if rng.random() < .4 else r(rng)


def text(rng):
    f = rng.choice("vec fvec veci vecc mat fmat poly poly complex quat phasor ratio dual dual2 multidual error model hist hist ode".split())
    d = rng.randint(0, 1)
    sp = "%d %d" % (rng.randrange(7), rng.randint(0, 1))
    h = "text %s %d " % (f, d)
    if f == "vec":
        return h + sp + " " + vec(rng, rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randint(7, 40)]))
    if f == "fvec":
        return h + sp + " " + vec(rng, rng.choice([1, 2, 3, 5]))
    if f == "veci":
        n = rng.randint(0, 5)
        return h + sp + " %d %s" % (n, " ".join(str(rng.randint(-2000, 2000)) for _ in range(n)))
    if f == "vecc":
        return h + sp + " " + mat(rng, rng.randint(0, 3), 2)
    if f == "mat":
        return h + sp + " " + mat(rng, rng.randint(1, 4), rng.randint(1, 4))
    if f == "fmat":
        return h + sp + " " + mat(rng, *rng.choice([(2, 2), (2, 3), (1, 4), (3, 2)]))
    if f == "poly":
        n = rng.randint(0, 6)
        return h + "%d %d %d %s" % (rng.randrange(8), rng.randrange(5), n, " ".join(rng.choice([r(rng), "0", "1", "-1", "1e-17"]) for _ in range(n)))
    if f == "complex":
        return h + "2 %s %s" % (r(rng), rng.choice([r(rng), "1", "-1", "0"]))
    if f == "quat":
        return h + vec(rng, 4)
    if f == "phasor":
        return h + vec(rng, 2)
    if f == "ratio":
        return h + "2 %d %d" % (rng.randint(-99, 99), rng.randint(-99, 99))
    if f == "dual":
        return h + "%d %s" % (rng.randrange(8), vec(rng, 2))
    if f == "dual2":
        return h + "%d %d %s" % (rng.randrange(8), rng.randrange(8), vec(rng, 3))
    if f == "multidual":
        return h + "%d %s" % (rng.randrange(8), vec(rng, 4))
    if f == "error":
        return h + "%s %s %s %d %s" % (rng.choice("none div domain range imposs conv arg".split()), rng.choice(["sqrt", "ode::solve"]), rng.choice(["a.h", "/x/y.h"]), rng.randint(0, 2000), r(rng))
    if f == "model":
        cov = rng.choice(["2 2 nan nan nan nan", mat(rng, 2, 2)])
        return h + "%d 7 %s %s %s %s %s %s %s %s" % (rng.randint(0, 50), r(rng), r(rng), opt(rng), opt(rng), r(rng), opt(rng), opt(rng), cov)
    if f == "hist":
        lo = rng.choice([0.0, -3.5, rng.uniform(-10, 10)])
        hi = lo + rng.choice([1.0, 10.0, rng.uniform(.1, 100)])
        n = rng.choice([0, 1, 3, 12])
        return h + "%d %d %d %d %r %r %d %s" % (rng.randrange(7), rng.randint(0, 1), rng.randint(0, 1), rng.randint(1, 6), lo, hi, n, " ".join("%r" % rng.uniform(lo, hi) for _ in range(n)))
    n = rng.randint(0, 4)
    m = n if rng.random() < .8 else rng.randint(0, 4)
    return h + "%d %s %s" % (rng.randrange(7), vec(rng, n), mat(rng, m, rng.randint(1, 3)))


def prin(rng):
    k = rng.choice(["d", "s", "dd", "ds", "sd", "ss", "ddd", "dsd", "sss", "dddd", "sdds", ""])
    ln = 1 if k == "" else rng.randint(0, 1)
    return "print %s %d %d %s" % (rng.choice(["cout", "file"]), ln, len(k), " ".join("d " + r(rng) if c == "d" else "s " + rng.choice(["abc", "~", "two_words", "_"]) for c in k))


def line(rng):
    k = rng.randrange(12)
    if k < 2:
        return rng.choice(["~", "end", "end", "stop", "1.5"])
    if k == 2:
        return rng.choice(["abc", "!x", "!", ".", "-", "e5", "end_", "_end", "END", "~", "_", "1e999", "-1e400"])
    t = rng.choice(["%d" % rng.randint(-50, 50), "%.3f" % rng.uniform(-99, 99), "%r" % rng.uniform(-1e3, 1e3), "%.5e" % (rng.uniform(-1, 1) * 10.0 ** rng.randint(-250, 250)), "+%d" % rng.randint(0, 9), "%d." % rng.randint(0, 9)])
    if rng.random() < .4:
        t = t.replace(".", ",")
    return rng.choice(["", "", "", "_", "__"]) + t


def reading(rng):
    t = []
    for _ in range(rng.randint(1, 2)):
        n = rng.choice([rng.randint(0, 9)] * 6 + [rng.randint(10, 60)])
        t.append("open %d %d %s" % (rng.randint(0, 1), n, " ".join(line(rng) for _ in range(n))))
        for _ in range(rng.randint(1, 4)):
            t.append("read %s %s" % (rng.choice(["real", "real", "cin", "len"]), rng.choice(["~", "end", "end", "stop", "1.5", "1,5"])))
            if rng.random() < .15:
                t.append(prin(rng))
    t.append("rest")
    return t


def traces(check, rng):
    n = 300 if check.tier == "quick" else 3000
    ts = [reading(rng) for _ in range(n)]
    for _ in range(n):
        ts.append([rng.choice([text, text, text, prin])(rng) for _ in range(6)])
    return {"main": ts}
