HARNESS, MODULE = "c19.cpp", "Quad"
MACHINE = ("Q0", "QStep", "QNext")
MODELS = [{"module": "QuadModel", "cfg": "QuadModel.cfg"}]
A = ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]
CAMPAIGNS = [{"name": "asan", "flags": A}, {"name": "O2", "flags": ["-O2"], "tier": "thorough"}]


def vec(v):
    return "%d %s" % (len(v), " ".join(repr(float(x)) for x in v))


def poly(rng, d):
    m = rng.random()
    if m < .2:
        return [0.0] * d + [1.0]
    return [rng.choice([0.0, 1.0, -1.0, float(rng.randint(-9, 9)), round(rng.uniform(-5, 5), 2)]) for _ in range(d)] + [rng.choice([1.0, -2.0, .5, round(rng.uniform(.1, 5), 2)])]


def ends(rng):
    m = rng.random()
    if m < .08:
        a = float(rng.randint(-3, 3))
        return a, a
    if m < .5:
        return float(rng.randint(-3, 3)), float(rng.randint(-3, 3))
    if m < .9:
        return round(rng.uniform(-3, 3), 2), round(rng.uniform(-3, 3), 2)
    a = rng.uniform(-50, 50)
    return a, a + rng.uniform(-2, 2)


def flat(rng, a, b):
    """A polynomial with integer or dyadic coefficients that takes the same value at several dyadic points of [a, b]: an integrand that looks constant to a coarse rule."""
    from fractions import Fraction as Q
    a, b = Q(a), Q(b)
    k = rng.choice([[0, 4], [0, 2, 4], [0, 1, 2, 4], [0, 1, 2, 3, 4], [2], [1, 3], [0, 2, 3, 4], [1, 2, 3]])
    p = [Q(rng.choice([1, 2, -1]))]
    for i in k + ([rng.choice(k)] if rng.random() < .4 else []):
        r = a + (b - a) * i / 4
        p = [(p[j - 1] if j else 0) - r * (p[j] if j < len(p) else 0) for j in range(len(p) + 1)]
    p[0] += rng.choice([0, 0, 1, -3])
    return [float(x) for x in p]


def traces(check, rng):
    q = check.tier == "quick"
    ts = []

    def quad(r, n, a, b, p, tol=1e-8, t="1e-12"):
        ts.append(["quad %s %d %r %r %s %r %s" % (r, n, a, b, vec(p), tol, t)])
    for _ in range(1 if q else 15):
        for n in list(range(0, 22)) + [31, 32, 33, 64]:
            for r in ("mid", "trap", "simp", "simp"):
                for d in (rng.randint(0, 1), rng.randint(2, 3), rng.randint(4, 7)):
                    a, b = ends(rng)
                    quad(r, n, a, b, poly(rng, d))
        for _ in range(2):
            for a, b in ((0.0, 4.0), (-2.0, 2.0), (0.0, 1.0), (3.0, -1.0), (1.0, 3.0)):
                for r, n in (("mid", 4), ("trap", 4), ("simp", 4), ("simp", 8), ("trap", 7), ("romb", 2), ("romb", 3), ("romb", 4), ("romb", 5), ("leg", 5), ("rtol", 0), ("int", 0), ("intt", 0)):
                    p = flat(rng, a, b)
                    quad(r, n, a, b, p)
        for _ in range(8):
            a, b = ends(rng)
            quad("midd", 0, a, b, poly(rng, rng.randint(0, 4)))
        for n in range(0, 6):
            for d in range(0, 2 * n + 3):
                a, b = ends(rng)
                quad("romb", n, a, b, poly(rng, d))
        for n in (7, 8, 9, 10):
            for d in (0, 1, 3, 7, 11):
                a, b = ends(rng)
                quad("romb", n, a, b, poly(rng, d))
        for r in ("rtol", "rtol", "int", "intt"):
            for d in range(0, 9):
                for _ in range(2):
                    a, b = ends(rng)
                    if abs(a) > 5:
                        a, b = a / 20, a / 20 + 1
                    quad(r, 0, a, b, poly(rng, d), rng.choice([1e-8, 1e-4, 1e-2, 1.0, 1e-6]))
        for r in ("leg", "legx", "legxw"):
            for n in list(range(1, 15)) + ([16] if r == "leg" else []):
                for d in {0, 2 * n - 1, min(2 * n - 1, rng.randint(0, 2 * n - 1)), 2 * n - 2}:
                    a, b = ends(rng)
                    if abs(a) > 5:
                        a, b = a / 20, a / 20 + 1
                    quad(r, n, a, b, poly(rng, d), 1e-8, "1e-10" if n > 8 and n != 16 else "1e-12")
        quad("legd", 16, -1.0, 2.0, poly(rng, 9))
        for n in (2, 4, 8, 16):
            for d in {0, 1, 2, 3, 2 * n - 1, 2 * n - 2, rng.randint(0, 2 * n - 1)}:
                if d <= 2 * n - 1:
                    a, b = ends(rng)
                    quad("lag", n, 0.0, 1.0, poly(rng, d))
                    quad("her", n, 0.0, 1.0, poly(rng, d))
                    quad("lagx", n, 0.0, 1.0, poly(rng, d), 1e-8, "1e-6" if n == 16 else "1e-12")
                    quad("herx", n, 0.0, 1.0, poly(rng, d), 1e-8, "1e-9" if n == 16 else "1e-12")
                    quad("lagab", n, abs(a) / 5, abs(b) / 5, poly(rng, d), 1e-8, "1e-6" if n == 16 else "1e-12")
        for n in (0, 1, 3, 5, 7, 9, 32):
            ts.append(["noorder lag %d" % n])
            ts.append(["noorder her %d" % n])
        for _ in range(10):
            n, m = rng.randint(0, 5), rng.randint(0, 5)
            x = [rng.uniform(-3, 3) for _ in range(n)]
            if n != m:
                ts.append(["gaussbad %s %s" % (vec(x), vec([1.0] * m))])
            for how in ("vec", "ptr", "winv"):
                ts.append(["gauss %s %s %s %s" % (how, vec(x), vec([rng.uniform(-1, 2) for _ in x]), vec(poly(rng, rng.randint(0, 5))))])
        for _ in range(30):
            k = rng.choice([.25, .5, 1.0, 2.0, 3.0])
            ts.append(["inf %r %r %r %r %r %d" % (rng.choice([1.0, 2.5, -3.0, 100.0]), k, round(rng.uniform(-1, 3), 2), rng.choice([.5, 1.0, 2.0]), rng.choice([1e-8, 1e-5, 1e-3]), rng.choice([100, 10, 20, 30, rng.randint(1, 40)]))])
        # convergence exactly at the last allowed step, and one before
        for m in range(2, 12):
            ts.append(["inf 1.0 1.0 0.0 1.0 %r %d" % (2.718281828 ** -m * .8, m)])
            ts.append(["inf 1.0 1.0 0.0 1.0 %r %d" % (2.718281828 ** -m * .8, m - 1)])
            ts.append(["inf 1.0 1.0 0.0 1.0 %r %d" % (2.718281828 ** -m * .8, m + 1)])
        for A in (0.0, 1.0, -2.0):
            ts.append(["infconst %r 0.5 1.0 20" % A])
    return {"main": ts}
