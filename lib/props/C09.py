import math
HARNESS, MODULE = "c09.cpp", "Geom"
MACHINE = ("G0", "GStep", "GNext")
MODELS = [{"module": "GeomModel", "cfg": "GeomModel.cfg"}]
A = ["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "col", "flags": A}, {"name": "row", "flags": A + ["-DTHEORETICA_ROW_FIRST"]}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def angle(rng):
    return rng.choice([0.0, math.pi / 6, math.pi / 4, math.pi / 2, math.pi, -math.pi / 2, 3 * math.pi / 2, 2 * math.pi, 1e-8, rng.uniform(-7, 7), rng.uniform(-7, 7), rng.uniform(-100, 100)])


def axis(rng):
    v = rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -2], [3, 4, 0], [1, 1, 1], [1 / 3, 2 / 3, 2 / 3], None, None, None])
    if v is None:
        v = [rng.gauss(0, 1) * rng.choice([1, 1, 5]) for _ in range(3)]
        if rng.random() < .5:
            l = math.sqrt(sum(x * x for x in v))
            v = [x / l for x in v]
    return v


def box(rng):
    l, b, n = rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(.1, 3)
    if rng.random() < .3:
        l, b = float(rng.randint(-4, 4)), float(rng.randint(-4, 4))
    w, h = rng.uniform(.5, 8), rng.uniform(.5, 8)
    if rng.random() < .2:
        return [-w, w, -h, h, n, n + rng.uniform(.5, 100)]
    return [l, l + w, b, b + h, n, n + rng.uniform(.5, 100)]


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    for _ in range(120 if q else 4000):
        def kd(*shapes):
            n, k = rng.choice(shapes)
            return "%s %s %d %d" % (rng.choice(["fix", "fixs", "dyn"]), rng.choice(["fix", "dyn"]), n, k)
        sq = [(2, 2), (3, 3), (4, 4), (5, 5), (6, 6)]
        a = angle(rng)
        fov = rng.uniform(10, 120)
        cam, tgt, up = ([rng.uniform(-5, 5) for _ in range(3)] for _ in range(3))
        if rng.random() < .3:
            up = [0.0, 1.0, 0.0]
        nd = rng.choice([2, 3, 4])
        h = kd(*sq, (2, 3), (3, 4))
        n, k = map(int, h.split()[2:])
        wrong = rng.random() < .15
        cmds = ["ident " + h, "%s %s %s" % (rng.choice(["diag", "diagr"]), h, vec([rng.uniform(-5, 5) for _ in range(n + wrong)]))]
        h = kd(*sq)
        n = int(h.split()[2])
        cmds += ["trans %s %s" % (h, vec([rng.uniform(-5, 5) for _ in range(n - 1 + (rng.random() < .15))])), "sympl " + h, "hilb " + h]
        cmds += ["rot2 %s %r" % (kd(*sq, (2, 3)), a), "rot2 %s %r" % (kd((2, 2), (3, 3)), angle(rng)), "rot3 %s %r %s" % (kd((3, 3), (3, 3), (4, 4), (5, 5), (2, 2), (2, 3)), a, vec(axis(rng))), "rot3 %s %r %s" % (kd((3, 3), (4, 4)), angle(rng), vec(axis(rng)))]
        cmds += ["rota %s %s %r" % (kd((3, 3), (3, 3), (4, 4), (6, 6), (2, 2), (3, 4)), c, angle(rng)) for c in "xyz"]
        cmds += ["persp %s %s" % (kd((4, 4), (4, 4), (5, 5), (3, 3), (3, 4)), " ".join(map(repr, box(rng)))), "ortho %s %s" % (kd((4, 4), (4, 4), (5, 5), (3, 3)), " ".join(map(repr, box(rng)))),
                 "fov %s %r %r %r %r" % (kd((4, 4), (4, 4), (3, 3)), fov, rng.uniform(.5, 2.5), rng.uniform(.1, 2), rng.uniform(5, 100)),
                 "look %s %s %s %s %s" % (rng.choice(["fix", "dyn"]), rng.choice(["fix", "dyn"]), vec(cam), vec(tgt), vec(up)),
                 "sinv - %s %s %s %r" % (rng.choice(["fix", "dyn"]), vec([rng.uniform(-3, 3) for _ in range(nd)]), vec([rng.choice([0.0, rng.uniform(-3, 3)]) for _ in range(nd)]), rng.choice([1.0, rng.uniform(.3, 3)]))]
        if rng.random() < .1:
            cmds.append("rot3 %s %r %s" % (kd((3, 3)), a, rng.choice([vec([0, 0, 0]), "2 1.0 2.0"])))
        ts.append(cmds)
    return {"main": [[c] for t in ts for c in t]}
