from props.C21 import vec

HARNESS, MODULE = "c23.cpp", "Interp"
MACHINE = ("I0", "IStep", "INext")
MODELS = [{"module": "InterpModel", "cfg": "InterpModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"},
             {"name": "nox86", "flags": ["-O1", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"}]


def val(rng):
    return rng.choice([0.0, 1.0, -1.0, 2.0, .5, rng.uniform(-10, 10), rng.uniform(-1, 1), round(rng.uniform(-100, 100), 1), 10.0 ** rng.randint(-6, 6)])


def param(rng):
    return rng.choice([0.0, 1.0, .5, .25, rng.random(), rng.random(), rng.random(), rng.uniform(-1, 2), 1e-9, 1 - 1e-9])


def xs(rng, n, mode):
    x = rng.choice([0.0, -3.0, rng.uniform(-10, 10), 100.0])
    r = []
    for i in range(n):
        r.append(x)
        x += {0: 1.0, 1: rng.uniform(.1, 2), 2: 10.0 ** rng.uniform(-3, 2), 3: rng.choice([.5, 1.0, 2.0, 4.0])}[mode]
    return r


def traces(check, rng):
    ts = []
    for _ in range(1 if check.tier == "quick" else 12):
        for _ in range(60):
            a, b = val(rng), val(rng)
            ts.append(["lerp %s %r" % (vec([a, b]), param(rng))])
            if a == b:
                b = a + 1.5
            ts.append(["invlerp %s %r" % (vec([a, b]), rng.choice([a, b, val(rng), a + rng.random() * (b - a)]))])
            ts.append(["remap %s %r" % (vec([a, b, val(rng), val(rng)]), rng.choice([a, b, val(rng), a + rng.random() * (b - a)]))])
            for k in (1, 2):
                ts.append(["smooth %d %s %r" % (k, vec([a, b] if rng.random() < .95 else [a, a]), rng.choice([a, b, val(rng), a + rng.random() * (b - a), a + rng.random() * (b - a), a - 1, b + 1]))])
        for N in (2, 3, 4):
            for _ in range(20):
                p, q = [val(rng) for _ in range(N)], [val(rng) for _ in range(N)]
                ts.append(["vlerp %d %s %s %r" % (N, vec(p), vec(q), param(rng))])
                ts.append(["nlerp %d %s %s %r" % (N, vec(p), vec(q), param(rng))])
                ts.append(["slerp %d %r %r %r %r %r" % (N, rng.uniform(-3, 3), rng.choice([rng.uniform(.1, 3), 1.5707963, 1.0, .3]), rng.choice([1.0, 1.0, 2.0, .3]), rng.choice([1.0, 1.0, .5, 3.0]), param(rng))])
                a, b, s = val(rng), val(rng), rng.random()
                if a == b:
                    b += 2.5
                if rng.random() < .75:
                    p, q = [a] * N, [b] * N
                else:
                    p, q = [float(i) for i in range(N)], [float(2 * i + 1) for i in range(N)]
                ts.append(["vinv %d %s %s %r" % (N, vec(p), vec(q), a + s * (b - a))])
                ts.append(["vremap %d %s %s %s %s %r" % (N, vec([a] * N), vec([b] * N), vec([val(rng) for _ in range(N)]), vec([val(rng) for _ in range(N)]), a + s * (b - a))])
                for m, n in (("quad", 3), ("cubic", 4), ("gen", rng.randint(2, 9))):
                    ts.append(["bezier %d %s %d %s %r" % (N, m, n, " ".join(vec([val(rng) for _ in range(N)]) for _ in range(n)), param(rng))])
            ts.append(["bezier %d gen 1 %s 0.5" % (N, vec([1.0] * N))])
            ts.append(["bezier %d gen 0 0.5" % N])
            for s in (-.001, 1.001, 2.0):
                ts.append(["bezier %d gen 2 %s %s %r" % (N, vec([1.0] * N), vec([2.0] * N), s)])
        ts.append(["slerp 3 0.0 1.0 0.0 1.0 0.5"])
        ts.append(["slerp 2 0.0 1.0 1.0 0.0 0.5"])
        for _ in range(40):
            n = rng.randint(1, 8)
            x = xs(rng, n, rng.choice([0, 1, 3]))
            rng.shuffle(x)
            if n > 1 and rng.random() < .2:
                i, j = rng.sample(range(n), 2)
                x[i] = x[j]
            ts.append(["lagrange %d %s" % (n, " ".join(vec([u, val(rng)]) for u in x))])
        ts.append(["lagrange 0"])
        ts.append(["lagrange 3 2 1.0 2.0 2 3.0 1.0 2 1.0 5.0"])
        for n in (0, 1, 2, 3, 4, 5, 7, 8, 12, 20):
            a, b = sorted([rng.uniform(-5, 5), rng.uniform(-5, 5)])
            ts.append(["cheb %r %r %d" % (a, b, n)])
            ts.append(["cheb -1.0 1.0 %d" % n])
        for m in ("grid", "cheb"):
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8):
                p = [float(rng.randint(-3, 3)) for _ in range(rng.randint(1, n + 3))]
                ts.append(["grid %s %s %r %r %d" % (m, vec(p), rng.uniform(-3, 0), rng.uniform(.1, 3), n)])
        for m in ("pts", "xy", "copy", "fpts", "fxy"):
            for _ in range(14):
                n = rng.choice([2, 3, 3, 4, 5, rng.randint(6, 12)])
                x = xs(rng, n, rng.randrange(4))
                lin = rng.random()
                y = [3.0 * u - 1.0 for u in x] if lin < .1 else [val(rng) for _ in x] if lin < .6 else [rng.uniform(-1, 1) for _ in x] if lin < .95 else [2.0] * n
                at = [rng.choice(x), x[0], x[-1], x[0] - 1.5, x[-1] + .5] + [rng.uniform(x[0], x[-1]) for _ in range(4)]
                at += [rng.choice(x) + d for d in (1e-4, -1e-4, 1e-2, -1e-2)] + [rng.choice(x) + rng.choice([1, -1]) * 10.0 ** rng.uniform(-6, 0) for _ in range(3)]
                ts.append(["spline %s %s %s %s" % (m, vec(x), vec(y), vec(at))])
            ts.append(["spline %s 1 1.0 1 2.0 0" % m])
            ts.append(["spline %s 0 0 0" % m])
        ts.append(["spline xy %s %s 0" % (vec([1.0, 2.0, 3.0]), vec([1.0, 2.0]))])
        ts.append(["spline fxy %s %s 0" % (vec([1.0, 2.0]), vec([1.0, 2.0, 4.0]))])
    return {"main": ts}
