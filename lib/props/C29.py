import math

HARNESS, MODULE = "c29.cpp", "Elem"
REPEAT = 3
MACHINE = ("Elem0", "EStep", "ENext")
MODELS = [{"module": "EnclModel", "cfg": "EnclModel.cfg"}]
CAMPAIGNS = [{"name": "x86", "flags": ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]},
             {"name": "portable", "flags": ["-O1", "-DTHEORETICA_DISABLE_X86", "-DTHEORETICA_BRANCHLESS", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"]},
             {"name": "x86-O2", "flags": ["-O2"], "tier": "thorough"},
             {"name": "portable-O3", "flags": ["-O3", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"}]
CONST = "PHI INVPHI PI PI2 PI4 PIDOUBLE TAU INVPI SQRTPI E LOG2E LOG210 LOG10E LN2 LN10 DEG2RAD RAD2DEG SQRT2 INVSQR2 SQRT3".split()
EPS = 2.0 ** -52


def logu(rng, a, b):
    return 10.0 ** rng.uniform(a, b)


def sg(rng):
    return rng.choice([-1.0, 1.0])


def around(rng, c):
    """a double at or next to c"""
    r = rng.random()
    if r < .2:
        return c
    if r < .4:
        return math.nextafter(c, math.inf)
    if r < .6:
        return math.nextafter(c, -math.inf)
    return c + sg(rng) * logu(rng, -18, -2) * max(1.0, abs(c))


def positive(rng):
    return rng.choice([lambda: logu(rng, -323, 308), lambda: logu(rng, -3, 3), lambda: logu(rng, -12, 12), lambda: float(rng.randint(1, 10000)),
                       lambda: 2.0 ** rng.randint(-1074, 1023), lambda: abs(around(rng, 1.0)), lambda: math.nextafter(2.0 ** rng.randint(-1000, 1000), rng.choice([0.0, math.inf])),
                       lambda: rng.choice([5e-324, 2.2250738585072014e-308, 1e-300, 1e-301, 1.7976931348623157e308, 1e8, 1e30]), lambda: rng.randint(1, 1000) ** 2 / 1.0, lambda: rng.randint(1, 1000) ** 3 / 1.0])()


def anyx(rng):
    return 0.0 if rng.random() < .03 else sg(rng) * positive(rng)


def angle(rng):
    return rng.choice([lambda: rng.uniform(-7, 7), lambda: rng.uniform(-100, 100), lambda: around(rng, rng.randint(-16, 16) * math.pi / 4), lambda: around(rng, rng.randint(-400, 400) * math.pi / 2),
                       lambda: sg(rng) * logu(rng, -300, 15), lambda: sg(rng) * logu(rng, 2, 12), lambda: float(rng.randint(-1000, 1000)), lambda: sg(rng) * logu(rng, 9, 11),
                       lambda: sg(rng) * logu(rng, 15, 300), lambda: 0.0, lambda: sg(rng) * 2.0 ** rng.randint(-60, 70)])()


def expo(rng):
    return rng.choice([lambda: rng.uniform(-30, 30), lambda: rng.uniform(-712, 712), lambda: float(rng.randint(-40, 40)), lambda: around(rng, float(rng.randint(-20, 20))), lambda: sg(rng) * logu(rng, -300, 2),
                       lambda: sg(rng) * logu(rng, 2, 300), lambda: around(rng, rng.choice([0.001, -0.001, 709.0, 710.0, 20.0, -20.0])), lambda: sg(rng) * rng.uniform(708, 711)])()


def unit(rng):
    return rng.choice([lambda: rng.uniform(-1, 1), lambda: sg(rng) * (1 - logu(rng, -16, -1)), lambda: sg(rng) * logu(rng, -300, 0), lambda: rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, 1 - EPS / 2, EPS / 2 - 1, 0.7071067811865475])])()


def small32(rng):
    return rng.choice([lambda: rng.uniform(-10, 10), lambda: rng.uniform(-2.1e9, 2.1e9), lambda: around(rng, float(rng.randint(-1000, 1000))), lambda: float(rng.randint(-2 ** 31, 2 ** 31 - 1)), lambda: sg(rng) * logu(rng, -300, 9),
                       lambda: rng.choice([-2147483648.0, 2147483647.0, 2147483647.5, -2147483647.5, 0.0, -0.5, 0.5])])()


def anyfr(rng):
    return small32(rng) if rng.random() < .6 else sg(rng) * rng.choice([logu(rng, 9, 20), float(rng.randint(0, 2 ** 62)), rng.randint(0, 2 ** 53) / 2 ** rng.randint(1, 20), logu(rng, 15, 300)])


def call(rng):
    f = rng.choice(FUN)
    if f in ("sqrt", "ln", "log2", "log10"):
        return f, [0.0 if f == "sqrt" and rng.random() < .05 else positive(rng)]
    if f in ("cbrt", "atan", "abs", "sgn", "heaviside", "square", "cube", "asinh"):
        return f, [anyx(rng)]
    if f in ("radians", "degrees"):
        x = anyx(rng)
        return f, [x if abs(x) < 1e306 else 1.0]
    if f == "root":
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 33, 100, -1, -2, -3, -4, -7])
        return f, [positive(rng) if n % 2 == 0 else sg(rng) * positive(rng)], n
    if f in ("exp", "expm1", "sinh", "cosh", "tanh", "coth", "sigmoid"):
        x = expo(rng)
        return f, [x if f != "coth" or x != 0 else 1.0]
    if f == "powf":
        a = rng.choice([lambda: rng.uniform(-5, 5), lambda: float(rng.randint(0, 9)), lambda: sg(rng) * logu(rng, -20, 3), lambda: 0.5, lambda: 0.0])()
        return f, [0.0 if a >= 0 and rng.random() < .05 else positive(rng), a]
    if f == "pow":
        return f, [anyx(rng) if rng.random() < .5 else rng.uniform(-3, 3)], rng.choice([rng.randint(-9, 20), rng.randint(-300, 300)])
    if f == "ipow":
        return f, [anyx(rng) if rng.random() < .5 else rng.uniform(-3, 3)], rng.choice([rng.randint(0, 20), rng.randint(0, 300)])
    if f in ("sin", "cos", "tan", "cot"):
        x = angle(rng)
        return f, [x if f != "cot" or x != 0 else 1.0]
    if f in ("asin", "acos"):
        return f, [unit(rng)]
    if f == "atanh":
        x = unit(rng)
        return f, [x if abs(x) < 1 else 0.5]
    if f == "acosh":
        return f, [rng.choice([1.0, 1 + logu(rng, -15.5, 0), rng.uniform(1, 100), logu(rng, 0, 308), around(rng, 1e8), 1e8, 1.5e154])]
    if f == "atan2":
        y, x = rng.choice([lambda: (anyx(rng), anyx(rng)), lambda: (rng.uniform(-2, 2), rng.uniform(-2, 2)), lambda: (0.0, anyx(rng) or 1.0), lambda: (anyx(rng) or 1.0, 0.0), lambda: (sg(rng), sg(rng)),
                           lambda: (sg(rng) * logu(rng, -10, 0), sg(rng)), lambda: (-0.0, sg(rng))])()
        return f, [y, x] if x or y else [1.0, 1.0]
    if f == "sinc":
        return f, [rng.choice([lambda: rng.uniform(-10, 10), lambda: float(rng.randint(-9, 9)), lambda: sg(rng) * logu(rng, -18, 6), lambda: around(rng, float(rng.randint(-9, 9)))])()]
    if f == "floor":
        return f, [small32(rng)]
    if f == "fract":
        return f, [anyfr(rng)]
    if f in ("max", "min"):
        x = anyx(rng)
        y = rng.choice([x, -x, math.nextafter(x, 0), anyx(rng)])
        return f, [x if abs(x) < 1e307 else 1.0, y if abs(y) < 1e307 else -1.0]
    if f == "clamp":
        a, b = sorted([anyx(rng), anyx(rng)])
        return f, [rng.choice([anyx(rng), a, b, rng.uniform(-1, 1)]), a, b]


FUN = "sqrt cbrt root exp expm1 ln log2 log10 powf pow ipow sin cos tan cot atan asin acos atan2 sinh cosh tanh coth asinh acosh atanh sigmoid sinc heaviside abs sgn floor fract max min clamp square cube radians degrees".split()
FUN += "sin cos tan cot atan2 root sqrt cbrt".split()
ODD = "cbrt sin tan atan asin sinh tanh asinh atanh abs sgn cube coth".split()


def show(c):
    return c[0] + "".join(" " + repr(float(x)) for x in c[1]) + (" | %d" % c[2] if len(c) > 2 else "")


def traces(check, rng):
    ts = [["const " + c for c in CONST]]
    for _ in range(400 if check.tier == "quick" else 3000):
        t = []
        for _ in range(20):
            c = call(rng)
            t.append(show(c))
            if c[0] in ODD and rng.random() < .5:
                t.append(show((c[0], [-c[1][0]])))
            if rng.random() < .1:
                t.append(rng.choice(t))
        ts.append(t)
    return {"main": ts}
