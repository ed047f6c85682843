HARNESS, MODULE = "c11.cpp", "Cplx"
MACHINE = ("X0", "XStep", "XNext")
MODELS = [{"module": "CplxModel", "cfg": "CplxModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined"]
CAMPAIGNS = [{"name": "x87", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def num(rng, small=True):
    m = rng.random()
    if m < .2:
        return float(rng.randint(-3, 3))
    if m < .3 and small:
        return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -4)
    if m < .4:
        return rng.gauss(0, 1) * 10.0 ** rng.uniform(-4, 4)
    return rng.gauss(0, 2)


def cn(rng, small=True):
    a, b = num(rng, small), num(rng, small)
    m = rng.random()
    if m < .1:
        b = rng.choice([0.0, 0.0, -0.0])
    elif m < .2:
        a = 0.0
    elif m < .25:
        b = a * rng.choice([1, -1])
    return "%r %r" % (a, b)


def lim(rng, big):
    """A number of moderate size for the transcendental functions."""
    m = rng.random()
    if m < .15:
        return float(rng.randint(-2, 2))
    if m < .25:
        return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-6, -1)
    return rng.uniform(-big, big)


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    fs = "+-*/"
    for _ in range(60 if q else 3000):
        t = ["%s %s" % (rng.choice(["set", "seta"]), cn(rng, False))]
        for _ in range(rng.randint(3, 10)):
            k = rng.choice(["asg", "asg", "asgr", "inv", "bin", "rbin", "un"])
            if k == "asg":
                t.append("asg %s %s" % (rng.choice(fs), rng.choice(["self -", "other " + cn(rng), "other " + cn(rng, False)]) if rng.random() < .8 else "other " + cn(rng)))
                t[-1] = t[-1].replace("self -", "self")
            elif k == "asgr":
                t.append("asgr %s %r" % (rng.choice(fs), num(rng, False) or 2.0))
            elif k == "inv":
                t.append("inv")
            elif k == "bin":
                t.append("bin %s %s %s" % (rng.choice(fs), cn(rng), cn(rng)))
            elif k == "rbin":
                t.append("rbin %s %r %s" % (rng.choice(fs), num(rng), cn(rng)))
            else:
                t.append("un %s %s" % (rng.choice(["conj", "neg", "id"]), cn(rng)))
        ts.append(t)
        for f in fs:
            ts.append(["bin %s %s %s" % (f, cn(rng), cn(rng)), "binr %s %s %r" % (f, cn(rng), num(rng)), "rbin %s %r %s" % (f, num(rng), cn(rng))])
        z = cn(rng)
        ts.append(["eq %s %s" % (z, rng.choice([z, cn(rng)])), "eq 1.0 %r 1.0 %r" % (num(rng), num(rng)), "eq %r 2.0 %r 2.0" % (num(rng), 1.0), "rotor %r" % rng.uniform(-10, 10)])
        for f in ("inverse", "finverse", "conj", "neg", "id", "square", "cube", "sqrt", "ln"):
            z = cn(rng)
            if f == "ln":
                while z.replace("-", "") == "0.0 0.0":
                    z = cn(rng)
            ts.append(["un %s %s" % (f, z)])
        for f in ("exp", "sin", "cos", "tan", "asin", "acos", "atan"):
            for _ in range(2):
                b = 6 if f[0] != "a" else 3
                a, c = lim(rng, b), lim(rng, b if f != "tan" else rng.choice([2, 2, 12]))
                if f == "tan" and abs(c) < .1:
                    c = .5
                if f[0] == "a" and rng.random() < .3:
                    c = 0.0
                if f == "atan" and abs(c) > .9 and abs(a) < .1:
                    a = 1.0
                if f in ("asin", "acos") and abs(abs(a) - 1) < .05 and abs(c) < .05:
                    a = .5
                ts.append(["un %s %r %r" % (f, a, c)])
        for f in ("re", "im", "sqr", "norm", "abs", "arg", "real"):
            ts.append(["realf %s %s" % (f, cn(rng))])
    for z in ("0.0 0.0", "1e-120 0.0", "1e-8 1e-8", "1.5e-8 0.0", "1e-20 -1e-20", "0.0 1e-30"):
        ts.append(["un inverse " + z, "un finverse " + z, "set " + z, "inv", "bin / 1.0 2.0 " + z, "rbin / 2.0 " + z, "realf arg " + z] + ["un sqrt " + z])
    for k in ("0.0", "-0.0", "1e-17", "3e-16", "-1e-12"):
        ts.append(["set 1.0 -2.0", "binr / 3.0 4.0 " + k, "asgr / " + k])
    return {"main": ts}
