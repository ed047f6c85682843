import math
HARNESS, MODULE = "c12.cpp", "Quat"
MACHINE = ("Start12", "QStep", "QNext")
MODELS = [{"module": "QuatModel", "cfg": "QuatModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def num(rng):
    m = rng.random()
    return float(rng.randint(-3, 3)) if m < .25 else rng.gauss(0, 1) * 10.0 ** rng.uniform(-3, 3) if m < .35 else rng.gauss(0, 2)


def nz(rng):
    return num(rng) or 1.5


def qu(rng):
    q = [num(rng) for _ in range(4)]
    if rng.random() < .2:
        q[rng.randrange(4)] = 0.0
    if rng.random() < .1:
        k = rng.randrange(4)
        q = [q[i] if i == k else 0.0 for i in range(4)]
    return " ".join(map(repr, q))


PH = [0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, 1.0, 1.0]


def ph(rng):
    m = abs(num(rng)) if rng.random() < .95 else 0.0
    return "%r %r" % (m, rng.choice(PH + [rng.uniform(-7, 7)] * 5))


def v3(rng, n=3):
    v = [num(rng) for _ in range(n)]
    if not any(v):
        v[0] = 1.0
    return "%d %s" % (n, " ".join(map(repr, v)))


def other(rng, g):
    return "self" if rng.random() < .15 else "other " + g(rng)


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    fs = "+-*/"
    for _ in range(60 if q else 3000):
        t = ["qset %s %s" % (rng.choice(["-", "arr"]), qu(rng))]
        u = ["pofc %r %r" % (nz(rng), num(rng)) if rng.random() < .5 else "pset %s %s" % (rng.choice(["-", "arr"]), ph(rng))]
        for _ in range(rng.randint(3, 8)):
            t.append(rng.choice(["qasg %s %s" % (rng.choice(fs), other(rng, qu)), "qasgr %s %r" % (rng.choice("*/"), nz(rng)), "qinv", "qbin %s %s %s" % (rng.choice(fs), qu(rng), qu(rng))]))
            u.append(rng.choice(["pasg %s %s" % (rng.choice(fs), other(rng, ph))] * 2 + ["pinv", "pbin %s %s %s" % (rng.choice(fs), ph(rng), ph(rng))]))
        ts += [t, u]
        for f in fs:
            ts.append(["qbin %s %s %s" % (f, qu(rng), qu(rng)), "qbinr %s %s %r" % (f, qu(rng), num(rng)), "rqbin %s %r %s" % (f, num(rng), qu(rng))])
            p = ph(rng)
            r = "%r %s" % (abs(num(rng)), p.split()[1]) if rng.random() < .4 else ph(rng)
            ts.append(["pbin %s %s %s" % (f, p, r), "rpbin %s %r %s" % (f, num(rng), ph(rng))])
        for k in ("+", "-", "*", "/", "*k", "/k"):
            i = [rng.choice([rng.randint(-9, 9), rng.randint(-1000, 1000)]) for _ in range(4)]
            ts.append(["ratio %s %s %d %d %d %d" % (rng.choice("idm"), k, i[0], i[1] or 1, i[2], i[3] or 2)])
        ts += [["qun %s %s" % (f, qu(rng))] for f in ("inverse", "conj", "neg", "pos", "parts")]
        ts += [["pun %s %s" % (f, ph(rng))] for f in ("inverse", "conj", "tocx", "normarg")]
        p = ph(rng)
        ts += [["qnorm " + qu(rng)], ["peq %s %s" % (p, rng.choice([p, ph(rng)]))], ["peq %s %s 1.25" % (p, p.split()[0])], ["cpbin %s %r %r %s" % (rng.choice(["cp", "pc"]), nz(rng), num(rng), ph(rng))]]
        kd = rng.choice(["fix", "dyn"])
        w = 2 if kd == "dyn" and rng.random() < .1 else 3
        th = rng.choice([rng.uniform(-7, 7), math.pi / 2, math.pi, 0.0, 2 * math.pi])
        qq = qu(rng)
        if not any(float(x) for x in qq.split()):
            qq = "1.0 2.0 3.0 4.0"
        ts += [["qrotation %s %r %s" % (kd, th, v3(rng, w))], ["qrotate %s %r %s %s" % (kd, th, v3(rng), v3(rng, w))], ["qtrans %s %s %s" % (kd, qq, v3(rng, w))]]
    for z in ("0.0 0.0 0.0 0.0", "1e-9 0.0 0.0 1e-9", "0.0 1.0 0.0 0.0"):
        ts.append(["qun inverse " + z, "qset - " + z, "qinv", "qbin / 1.0 2.0 3.0 4.0 " + z, "rqbin / 2.0 " + z])
    for z in ("0.0 1.0", "1e-17 2.0", "1e-10 2.0"):
        ts.append(["pun inverse " + z, "pset - " + z, "pinv", "pbin / 1.0 2.0 " + z, "rpbin / 2.0 " + z, "pset - 2.0 1.0", "pasg / other " + z])
    return {"main": ts}
