HARNESS, MODULE = "c17.cpp", "Field"
MACHINE = ("L0", "LStep", "LNext")
MODELS = [{"module": "FieldModel", "cfg": "FieldModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def num(rng):
    return rng.choice([1.0, 2.0, -1.0, .5, 3.0, round(rng.uniform(-4, 4), 2), rng.uniform(-2, 2)])


def expr(rng, n, size, const=True, hyp=True):
    """a random postfix program of n variables"""
    if size <= 1:
        return [("v %d" % rng.randint(1, n))]
    m = rng.random()
    if m < .5:
        k = rng.randint(1, size - 1)
        a = expr(rng, n, k, const, hyp)
        # a constant of its own, as an operand
        b = ["c %r" % num(rng)] if const and rng.random() < .12 else expr(rng, n, size - k, const, hyp)
        if rng.random() < .3 and b[0][0] != "c":
            a, b = b, a
        elif b[0][0] == "c" and rng.random() < .5:
            a, b = b, a
        return a + b + ["b " + rng.choice("++--***/")]
    e = expr(rng, n, size - 1, const, hyp)
    if m < .62:
        return e + ["k %s %r" % (rng.choice("+-*/"), num(rng))]
    if m < .72:
        return e + ["r %s %r" % (rng.choice("+-*/"), num(rng))]
    if m < .85:
        return e + ["u %s %d" % rng.choice([("neg", 0), ("square", 0), ("cube", 0), ("pow", rng.choice([-1, 0, 1, 2, 3, 4])), ("inverse", 0)])]
    f = rng.choice(["sin", "cos", "exp", "atan", "sqrt", "ln", "tan"] + (["sinh", "cosh", "tanh"] if hyp else []))
    if f in ("sqrt", "ln"):     # keep the argument positive
        e = e + ["u square 0", "k + 0.5"]
    return e + ["u %s 0" % f]


def pt(rng, n):
    return [rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-3, 3), 1), rng.uniform(-2, 2), rng.uniform(-2, 2)]) for _ in range(n)]


def ps(p):
    return "%d %s" % (len(p), " ".join(p))


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def traces(check, rng):
    q = check.tier == "quick"
    ts = []
    kinds = [("1", 1), ("2", 2), ("3", 3), ("4", 4), ("dyn", 1), ("dyn", 2), ("dyn", 3), ("dyn", 5)]
    for _ in range(7 if q else 90):
        for k, n in kinds:
            for op in ("grad", "div", "grad"):
                ts.append(["%s %s %s 1 %s" % (op, k, vec(pt(rng, n)), ps(expr(rng, n, rng.randint(1, 9))))])
            ts.append(["dir %s %s 1 %s %s" % (k, vec(pt(rng, n)), ps(expr(rng, n, rng.randint(1, 8))), vec(pt(rng, n)))])
            ts.append(["lap %s %s 1 %s" % (k, vec(pt(rng, n)), ps(expr(rng, n, rng.randint(1, 8), True, False)))])
            ts.append(["jac %s %s %d %s" % (k, vec(pt(rng, n)), n, " ".join(ps(expr(rng, n, rng.randint(1, 6)) if rng.random() < .9 else ["c 2.5"]) for _ in range(n)))])
            if n % 2 == 0:
                ts.append(["bracket %s %s 2 %s %s" % (k, vec(pt(rng, n)), ps(expr(rng, n, rng.randint(1, 7))), ps(expr(rng, n, rng.randint(1, 7))))])
            if n == 3:
                for _ in range(3):
                    ts.append(["curl %s %s 3 %s" % (k, vec(pt(rng, 3)), " ".join(ps(expr(rng, 3, rng.randint(1, 7))) for _ in range(3)))])
            ts.append(["arg %s %s 0" % (k, vec(pt(rng, n)))])
        for k, n, m in [("23", 2, 3), ("32", 3, 2), ("41", 4, 1), ("dyn", 2, 4), ("dyn", 4, 2), ("dyn", 3, 1)]:
            ts.append(["jacmn %s %s %d %s" % (k, vec(pt(rng, n)), m, " ".join(ps(expr(rng, n, rng.randint(1, 6))) for _ in range(m)))])
        for op in ("deriv", "deriv2", "tay1", "tay2"):
            for _ in range(4):
                ts.append(["%s %r %s" % (op, pt(rng, 1)[0], ps(expr(rng, 1, rng.randint(1, 9), True, op in ("deriv", "tay1"))))])
    for n in (1, 2, 4):
        ts.append(["curl dyn %s %d %s" % (vec(pt(rng, n)), n, " ".join(ps(expr(rng, n, 3)) for _ in range(n)))])
    # a fixed, small list: polynomial operators at integer points, where the result is exact
    for k, n in kinds:
        ts.append(["grad %s %s 1 %s" % (k, vec([2.0] * n), ps(["c 0.0"] + sum([["v %d" % (i + 1), "v %d" % (i + 1), "b *", "b +"] for i in range(n)], [])))])
        ts.append(["lap %s %s 1 %s" % (k, vec([2.0] * n), ps(["c 0.0"] + sum([["v %d" % (i + 1), "u pow 3", "b +"] for i in range(n)], [])))])
        ts.append(["grad %s %s 1 %s" % (k, vec([2.0] * n), ps(["c 3.0"]))])
    return {"main": ts}
