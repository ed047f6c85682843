HARNESS, MODULE = "c08.cpp", "LinSys"
MACHINE = ("L0", "LStep", "LNext")
MODELS = [{"module": "LinSysModel", "cfg": "LinSysModel2.cfg"}, {"module": "LinSysModel", "cfg": "LinSysModel3.cfg"}, {"module": "LinSysModel", "cfg": "LinSysModel3x.cfg", "tier": "thorough"}]
A = ["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "col", "flags": A}, {"name": "row", "flags": A + ["-DTHEORETICA_ROW_FIRST"], "traces": "row"}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def num(rng, k):
    if k == 0:
        return float(rng.randint(-4, 4))
    if k == 1:
        return rng.uniform(-3, 3)
    if k == 2:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-3, 3)
    if k == 3:
        return rng.choice([0.0, 0.0, 1.0, -1.0, 2.0])
    return rng.choice([1e-9, 1e9, 1.0, -2.0, 0.0, 3.0])


def flat(m):
    return " ".join(repr(float(x)) for r in m for x in r)


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def head(rng, n, k=None):
    k = n if k is None else k
    return "%s %d %d" % ("fix" if n == k and n <= 4 and rng.random() < .5 else "dyn", n, k)


def everything(rng, m, hd=None):
    n = len(m)
    hd = hd or head(rng, n)
    b = [num(rng, rng.randrange(2)) for _ in range(n)]
    f = flat(m)
    low = [[m[i][j] if j <= i else 0.0 for j in range(n)] for i in range(n)]
    up = [[m[i][j] if j >= i else 0.0 for j in range(n)] for i in range(n)]
    unit = [[1.0 if i == j else low[i][j] for j in range(n)] for i in range(n)]
    tr = [[m[j][i] for j in range(n)] for i in range(n)]
    sym = [[(m[i][j] + m[j][i]) / 2 for j in range(n)] for i in range(n)]
    gram = mul(m, tr)
    gram = [[gram[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    t = ["solve %s %s %s %s" % (rng.choice(["solve", "lu"]), hd, f, vec(b)), "det - %s %s" % (hd, f), "inv %s %s %s" % (rng.choice(["copy", "into", "place", "member"]), hd, f),
         "lu %s %s %s" % (rng.choice(["copy", "place", "dirty"]), hd, f), "tri lower %s %s %s" % (hd, f, vec(b)), "tri upper %s %s %s" % (hd, f, vec(b)),
         "tri auto %s %s %s" % (hd, flat(rng.choice([low, up, m])), vec(b)), "fac lu %s %s %s %s" % (hd, flat(unit), flat(up), vec(b)), "fac packed %s %s %s" % (hd, f, vec(b)),
         "fac chol %s %s %s" % (hd, flat(low), vec(b)), "chol %s %s %s" % (rng.choice(["copy", "place"]), hd, flat(gram)), "chol %s %s %s" % (rng.choice(["copy", "place"]), hd, flat(rng.choice([m, sym, sym]))),
         "ray - %s %s %s" % (hd, f, vec(b))]
    return t


def ortho(rng, n):
    q = []
    while len(q) < n:
        v = [rng.gauss(0, 1) for _ in range(n)]
        for u in q:
            d = sum(a * b for a, b in zip(u, v))
            v = [a - d * b for a, b in zip(v, u)]
        l = sum(a * a for a in v) ** .5
        if l > .2:
            q.append([a / l for a in v])
    return q


def eig(rng):
    """A symmetric matrix with a well separated spectrum: the iterations must converge."""
    n = rng.choice([2, 3, 4, 5, rng.randint(2, 5), rng.randint(6, 9)])
    q = ortho(rng, n)
    s = 10.0 ** rng.randint(-2, 2)
    d = [s * rng.choice([1, 1, -1])]
    for _ in range(n - 1):
        d.append(d[-1] * rng.uniform(.2, .45) * rng.choice([1, 1, 1, -1]))
    a = [[sum(q[k][i] * d[k] * q[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    a = [[a[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    x = [sum((1 if rng.random() < .5 else -1) * rng.uniform(.5, 1) * q[k][i] for k in range(n)) for i in range(n)]
    hd = head(rng, n)
    # elimination without exchanges must be safe for the inverse iteration
    def safe(shift, last):
        m = [[a[i][j] - (shift if i == j else 0) for j in range(n)] for i in range(n)]
        for k in range(n):
            if abs(m[k][k]) < 1e-4 * s and (k < n - 1 or last):
                return False
            for i in range(k + 1, n):
                c = m[i][k] / m[k][k]
                m[i] = [m[i][j] - c * m[k][j] for j in range(n)]
        return True
    piv = safe(0.0, True)
    t = []
    for f in ("pow", "powp"):
        t.append("eig %s %s %s %s conv %r 0" % (f, hd, flat(a), vec(x), d[0]))
    for f in ("inv", "invp"):
        if piv:
            t.append("eig %s %s %s %s conv %r 0" % (f, hd, flat(a), vec(x), d[-1]))
    k = rng.randrange(n)
    near = d[k] * (1 + rng.choice([-1, 1]) * rng.uniform(.02, .05))
    for f in ("ray", "rayp"):
        y = [q[k][i] + .05 * x[i] for i in range(n)]
        t.append("eig %s %s %s %s want %r %r" % (f, hd, flat(a), vec(y), d[k], near))
    ok = "conv" if safe(near, False) else "no"
    t.append("eig vec %s %s %s %s %r %r" % (hd, flat(a), vec(x), ok, d[k], near))
    # stopped before the shift meets the eigenvalue
    for f in ("rayt", "raypt"):
        t.append("eig %s %s %s %s %s %r %r" % (f, hd, flat(a), vec(y), ok, d[k], near))
    return t


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    for cfg, lim in (("LinSysGen2.cfg", 160), ("LinSysGen3.cfg", 200)) if q else (("LinSysGen2.cfg", 10**6), ("LinSysGen3.cfg", 10**6), ("LinSysGen3x.cfg", 8000)):
        g = check.generate("LinSysModel", cfg)
        for l in rng.sample(g, min(lim, len(g))):
            w = l[0].split()
            n = int(w[1])
            e = [float(x) for x in w[3:]]
            ts.append(everything(rng, [e[i * n:(i + 1) * n] for i in range(n)], " ".join(w[:3])))
    for n in range(1, 7):
        for k in range(5):
            for _ in range(6 if q else 120):
                m = [[num(rng, k) for _ in range(n)] for _ in range(n)]
                ts.append(everything(rng, m))
                # permuted, singular and needing exchanges
                p = list(range(n))
                rng.shuffle(p)
                if rng.random() < .5:
                    d = [[(num(rng, 1) or 1.0) if p[i] == j else 0.0 for j in range(n)] for i in range(n)]
                    ts.append(everything(rng, d))
                if n > 1 and rng.random() < .5:
                    i, j = rng.sample(range(n), 2)
                    s = [r[:] for r in m]
                    s[i] = s[j][:] if rng.random() < .5 else [0.0] * n
                    ts.append(everything(rng, s))
                if n > 1 and rng.random() < .5:
                    s = [r[:] for r in m]
                    s[0][0] = rng.choice([0.0, 1e-14, 1e-20])
                    ts.append(everything(rng, s))
    # larger ones
    for n in (7, 8, 9, 12):
        for _ in range(2 if q else 25):
            m = [[num(rng, 0) for _ in range(n)] for _ in range(n)]
            ts.append(everything(rng, m))
    # wrong shapes
    for _ in range(60 if q else 600):
        n = rng.randint(1, 4)
        k = rng.choice([x for x in range(1, 6) if x != n])
        m = [[num(rng, 1) for _ in range(k)] for _ in range(n)]
        sq = [[num(rng, 1) for _ in range(n)] for _ in range(n)]
        b, wb = [num(rng, 1) for _ in range(n)], [num(rng, 1) for _ in range(n + 1)]
        hd, hs = "dyn %d %d" % (n, k), "dyn %d %d" % (n, n)
        t = ["solve solve %s %s %s" % (hd, flat(m), vec(b)), "solve lu %s %s %s" % (hs, flat(sq), vec(wb)), "det - %s %s" % (hd, flat(m)),
             "lu %s %s %s" % (rng.choice(["copy", "place"]), hd, flat(m)), "chol %s %s %s" % (rng.choice(["copy", "place"]), hd, flat(m)), "fac %s %s %s %s" % (rng.choice(["packed", "chol"]), hs, flat(sq), vec(wb)),
             "inv %s %s %s" % (rng.choice(["copy", "into", "place", "member"]), hd, flat(m)),
             "tri %s %s %s %s" % (rng.choice(["lower", "upper"]), hs, flat(sq), vec(wb)), "fac lu %s %s %s %s" % (hs, flat(sq), flat(sq), vec(wb)),
             "eig %s %s %s %s no 0 1" % (rng.choice(["pow", "powp", "inv", "invp", "ray", "rayp"]), hd, flat(m), vec([1.0] * n)), "eig %s %s %s %s no 0 1" % (rng.choice(["pow", "powp", "inv", "invp", "ray", "rayp", "vec"]), hs, flat(sq), vec(wb)),
             "misc shape %d %d %s" % (n, rng.randint(1, 4), flat(sq))]
        ts += [[c] for c in t]
        e = " ".join(repr(num(rng, 1)) for _ in range(9))
        ts.append(["misc dynfix 3 " + e, "misc fixdyn 3 " + e])
    for _ in range(50 if q else 1500):
        ts.append(eig(rng))
        n = rng.randint(2, 4)
        m = [[num(rng, rng.randrange(2)) for _ in range(n)] for _ in range(n)]
        ts.append(["eig %s %s %s %s no 0 %r" % (f, head(rng, n), flat(m), vec([rng.uniform(.2, 1) for _ in range(n)]), rng.uniform(-3, 3)) for f in ("pow", "powp", "ray", "rayp")])
    for _ in range(60 if q else 1200):
        n = rng.randint(2, 3)
        k = rng.randrange(4)
        hd = "%s %d %d" % (rng.choice(["fix", "dyn"]), n, n)
        f = " ".join(repr(num(rng, k)) for _ in range(2 * n * n))
        if rng.random() < .2:
            f = "0.0 0.0 " + f.split(" ", 2)[2]
        b = "%d %s" % (n, " ".join(repr(num(rng, 1)) for _ in range(2 * n)))
        ts.append(["csolve %s %s %s %s" % (rng.choice(["solve", "lu"]), hd, f, b), "cinv %s %s %s" % (rng.choice(["copy", "into", "place", "member"]), hd, f), "clu %s %s %s" % (rng.choice(["copy", "place", "dirty"]), hd, f), "cdet - %s %s" % (hd, f)])
    return {"main": ts, "row": rng.sample(ts, len(ts) // 4)}
