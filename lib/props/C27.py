import itertools
import math

HARNESS, MODULE = "c27.cpp", "Errors"
MACHINE = ("E0", "EStep", "ENext")
MODELS = [{"module": "ErrorsModel", "cfg": "ErrorsModel.cfg"}]
CAMPAIGNS = [{"name": "errno", "flags": ["-O0", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"]},
             {"name": "throw", "flags": ["-O0", "-DTHEORETICA_THROW_EXCEPTIONS"]},
             {"name": "only", "flags": ["-O0", "-DTHEORETICA_ONLY_EXCEPTIONS"]},
             {"name": "errno-portable", "flags": ["-O1", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"},
             {"name": "throw-O2", "flags": ["-O2", "-DTHEORETICA_THROW_EXCEPTIONS", "-DTHEORETICA_DISABLE_X86"], "tier": "thorough"}]
PI = math.pi
REAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.25, -7.5, 1e-8, -1e-8, 100.0, -100.0]
NEAR1 = [1 + 2 ** -52, -1 - 2 ** -52, 1 - 2 ** -53, 1.5, -1.5, 0.25]
DIVS = [0.0, 1.0, -2.0, 1e-17, 1e-10, 0.5, -1e-200, -3.0]
S = range(0, 6)
POS = range(1, 5)
POOL = {}


def add(names, args):
    for f in names.split():
        POOL[f] = [a if isinstance(a, tuple) else (a,) for a in args]


add("cbrt exp sin cos atan sinh tanh asinh dualexp dual2exp multiexp", [x for x in REAL if abs(x) < 50])
add("sqrt ln log2 log10", REAL + [5e-324, -5e-324, 1e300, -1e300, -0.0])
add("ilog2", [0, 1, 2, 3, 4, 255, 2 ** 40])
add("powf", list(itertools.product([0.0, 1.0, 2.5], [-1.0, -0.5, 0.5, 1.0, 2.0])))
add("pow", list(itertools.product([1.0, 2.5, -2.0], [-3, -1, 0, 1, 4])))
add("root", list(itertools.product([0.5, 1.0, 8.0, -8.0, 81.0, -81.0, -0.3], [0, 1, 2, 3, 4, 5])))
add("tan dualtan dual2tan multitan", [0.0, 1.0, -1.0, 3.0])
add("tan", [0.0, 1.0, -1.0, 3.0, PI / 2, -PI / 2, 1.5, 1.6])
add("coth", [0.0, 1.0, -1.0, 0.5, -0.0, 50.0])
add("cot", [1.0, -1.0, 0.0, 2.0, PI / 2, -0.0])
add("dualcot dual2cot multicot", [1.0, -1.0, 0.0, 2.0])
add("asin acos", REAL[:7] + NEAR1)
add("dualasin dualacos dual2asin dual2acos multiasin multiacos", REAL[:7] + NEAR1)
add("atanh", [0.0, 0.5, -0.5, 0.99] + [1 + 2 ** -52, -1 - 2 ** -52, 2.0, -5.0])
add("acosh", [1.0, 1 - 2 ** -53, 1.5, 0.0, -1.0, 100.0, 1 + 2 ** -52])
add("atan2", list(itertools.product([0.0, 1.0, -1.0], repeat=2)) + [(-0.0, -0.0), (1e-300, 0.0), (0.0, 1e-300)])
add("binom", [(n, m) for n in range(0, 6) for m in range(0, 8)])
add("gammak halfgamma", range(0, 12))
add("gamma", [1.0, 0.5, 2.5, 10.0, 0.0, -1.0, -2.0, -0.5, -1.5, -2.25, -7.0, -50.0])
add("lngamma", [1.0, 0.5, 2.5, 10.0, 100.0, 0.0, -1.0, -2.0, -7.0, -0.5, -1.5, -2.25, -3.75])
add("cinv cinvert cdiv cdiveqc", [(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (1e-9, 0.0), (1e-7, 1e-7), (-0.0, 0.0), (3.0, 4.0)])
add("qinv qinvert", [(0.0, 0.0, 0.0, 0.0), (1.0, 0.0, 0.0, 0.0), (0.0, 0.0, 0.0, -2.0), (1e-9, 0.0, 0.0, 0.0), (1.0, 2.0, 3.0, 4.0)])
add("cdivr cdiveq qdivr qdiveq dualinv dualdivr dualdiveq dualdiv dual2inv dual2divr dual2diveq dual2div multiinv multidivr multidiveq multidiv vdivr vdiveq fdivr mdivr mdiveq rexp pdivr pdiveqr", [d for d in DIVS if d != -1e-200 or 0] + [-0.0])
add("pinv pinvert pdiv pdiveq", [0.0, 1.0, 2.5, 1e-10])
add("vunit mkunit", [0.0, 1.0, -2.0, 1e-10, -0.0])
add("rot3ax", [0.0, 1.0, -2.0])
add("relerr", [0.0, 1.0, -2.0, 0.25])
add("chisq0 hmean0", [0.0, 1.0, 2.0, 0.5])
add("rexp", [0.0, 1.0, 2.5])
add("dualsqrt dual2sqrt multisqrt", [0.0, 1.0, 2.0, -1.0, 0.25])
add("dualln duallog2 duallog10 dual2ln dual2log2 dual2log10 multiln multilog2 multilog10", [0.0, 1.0, -1.0, 2.0, 1e-9, -1e-9])
add("d_gaussian d_bernoulli d_poisson d_binomial d_chi_squared d_gamma d_beta d_student d_log_normal d_exponential d_rayleigh d_cauchy d_breit_wigner d_maxwell d_laplace d_pareto d_erlang", S)
add("r_uniform r_diceroll r_exponential r_rayleigh r_cauchy r_laplace r_pareto gxos gwy gmid vcross fadd fdot qrot", S)
add("vsum vdiff vadd vsub vdot adot asum adiff dmink deuc dman dcheb dcan dcos dham ddis dmap smap propprod i_gauss", list(itertools.product(range(1, 5), repeat=2)))
add("asum3", list(itertools.product([1, 2, 3], repeat=3)))
add("across", list(itertools.product([2, 3, 4], repeat=2)))
add("base", list(itertools.product(range(0, 5), range(1, 5))))
SH = list(itertools.product([1, 2, 3], repeat=2))
add("msum mdiff amsum amdiff alin madd msub mmul ammul", [a + b for a in SH for b in SH])
add("mtrans atrans vecmat solve eigpow eiginv eigray", list(itertools.product([1, 2, 3], repeat=3)))
add("minv minvert mdet mtpose lu chol", list(itertools.product([1, 2, 3, 4], repeat=2)))
add("swaprows swapcols", [(2, 3, 0, 1), (2, 3, 1, 1), (2, 3, 2, 0), (2, 3, 0, 2), (3, 2, 2, 1), (3, 2, 0, 3), (3, 2, 0, 2), (2, 3, 3, 0)])
add("lusing invsing", [4.0, 5.0, 3.0, -1.0])
add("cholneg", [1.0, 0.25, -1.0, 0.5, 0.75, 0.0])
add("cholasym", [1.0, 0.5, -1.0, 2.0])
add("trilow triup", [(x, n) for x in (0.0, 1.0, -3.0, 1e-10) for n in (1, 2, 3)])
add("rayq", [0.0, 1.0, -2.0])
add("rot2", list(itertools.product([1, 2, 3], repeat=2)))
add("rot3x rot3y rot3z rot3", list(itertools.product([2, 3, 4], repeat=2)))
add("persp ortho", list(itertools.product([3, 4, 5], repeat=2)))
add("symp", list(itertools.product([1, 2, 3, 4], repeat=2)))
add("csum product sumsq dmax dmin qmean amean hmean tss pval erl rdice shuf i_rom i_mid i_trap i_simp rootsn", range(0, 6))
add("d_rid", range(0, 4))
add("psum psumsq qsum", list(itertools.product(range(0, 4), repeat=2)))
add("psum3 chisq chilin", list(itertools.product(range(0, 4), repeat=3)))
add("wls", [(a, b, c) for a, b, c in itertools.product([2, 3, 4], repeat=3)])
add("chisq chilin", list(itertools.product([1, 2, 3], repeat=3)))
add("qsum0", list(itertools.product([0.0, 1.0, -2.0, 1e-17], repeat=2)))
add("variance stdev", list(itertools.product(range(0, 4), range(0, 3))))
add("variance stdev", [(n, c) for n in range(0, 5) for c in (0, 1, 2) if n > 0])
add("cov", list(itertools.product([1, 2, 3], [1, 2, 3], [0, 1, 2])))
add("autoc", [0, 1, 2, 3, 4, 6, 7, 100])
add("redchi", range(1, 6))
add("ols olserr", list(itertools.product(range(1, 5), repeat=2)))
add("olserr", list(itertools.product(range(3, 6), repeat=2)))
add("olsvert", [0.0, 1.0, -0.5])
add("model", list(itertools.product(range(1, 6), repeat=2)))
add("models", [(n, s) for n in range(1, 6) for s in (0.0, 1.0, 0.5)])
add("hist", range(0, 6))
add("rayl paret", [0.0, 1.0, -1.0, 0.5, 2.0])
add("gcong", [(n, m) for n in range(0, 5) for m in (1, 6, 7, 8, 100)])
add("pdivp", [(0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (1.0, 2.0)])
add("assleg", range(0, 6))
add("i_rom", range(0, 5))
add("fft", [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 32])
add("odefix", [(1.0, 0.1), (-1.0, 0.1), (1.0, 0.0), (1.0, -0.1), (0.0, 0.1), (0.05, 0.1)])
add("bez", [(n, t) for n in range(0, 5) for t in (0.0, 1.0, 0.5, -0.1, 1.1, 1 + 2 ** -52, -5e-324)])
add("smooth smoother", list(itertools.product([0.0, 1.0, -2.0], repeat=2)))
add("splines", list(itertools.product(range(0, 6), repeat=2)))
add("slerp0", [0.0, 1.0, 2.0])
add("lagr", [(n, x) for n in range(0, 5) for x in (0.0, 1.0, 2.0, 0.5)])
add("bisect itp", list(itertools.product([0.0, 1.0, 2.0, -2.0, 1.5, -1.0], repeat=2)))
add("newton", [-2.0, 1.0, -1.0, 4.0])
add("gmin gmax", list(itertools.product([-1.0, 0.0, 2.0, 3.0], repeat=2)))


add("tdest hdest sdest fsum fdiff flin fmul", [a + b for a in SH for b in SH])
add("tfix hfix sfix flu flu2 mulf muld", SH)
add("ftrans trilows triups lui scholes vecinv memtrans", list(itertools.product([1, 2, 3], repeat=3)))
add("slu", [(n, n, n, n, n) for n in (1, 2, 3)] * 3 + list(itertools.product([2, 3], repeat=5)))
add("pairpow pairinv", [(n, n, n, n) for n in (2, 3)] * 3 + list(itertools.product([2, 3], repeat=4)))
add("memtransf memtransd crossf vecmatf dice1", [1, 2, 3, 4])
add("dice1", [1.0, 6.0, -1.0, 0.0, -3.0, 20.0])
add("qrotate", list(itertools.product([2, 3, 4], repeat=2)))
add("fov", list(itertools.product([3, 4, 5], repeat=2)))
add("bitrev", [(2 ** m, m) for m in range(0, 5)] + [(n, m) for m in range(1, 5) for n in (0, 1, 2 ** m - 1) if n < 2 ** m])
add("wls2", list(itertools.product([2, 3, 4], repeat=2)))
add("prop", list(itertools.product([2, 3, 4], repeat=2)))


def call(f, a):
    return f + "".join(" " + (repr(x) if isinstance(x, float) else str(x)) for x in a)


def traces(check, rng):
    ts, every = [], []
    for f, args in sorted(POOL.items()):
        cs = [call(f, a) for a in args]
        every += cs
        if len(cs) > 30 and check.tier == "quick":
            cs = rng.sample(cs, 30)
        # every call of the operation, twice in different orders
        rng.shuffle(cs)
        a = list(cs)
        rng.shuffle(cs)
        ts.append(a + ["clear"] + cs)
    for _ in range(120 if check.tier == "quick" else 1500):
        some = rng.sample(every, 6)
        ts.append([rng.choice(some) if rng.random() < .93 else "clear" for _ in range(rng.randint(5, 20))])
    return {"main": ts}
