#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::PRNG; using th::pdf_sampler; using th::real;
typedef std::vector<uint64_t> VU;
typedef std::vector<double> VD;
static std::map<std::string, PRNG> R;
static PRNG& G(const std::string& g) { auto it = R.find(g); if (it == R.end()) { fprintf(stderr, "no generator\n"); _exit(77); } return it->second; }
static void set(const std::string& g, const PRNG& p) { R.erase(g); R.insert(std::make_pair(g, p)); }

// the pair methods keep a spare value between calls: start every trace without one
template<class F> static void flush(F f) {
  for (int k = 0; k < 2; ++k) {
    PRNG g = PRNG::splitmix64(9);
    uint64_t x = g.last();
    f(0, 1, g);
    if (g.last() == x) return;     // no draw: the spare was used up
  }
}
static void reset() {
  R.clear();
  flush([](real a, real b, PRNG& g) { th::rand_gaussian_polar(a, b, g); });
  flush([](real a, real b, PRNG& g) { th::rand_gaussian_boxmuller(a, b, g); });
}
// a generator of the user: the words of a list in turn
static uint64_t script(uint64_t, std::vector<uint64_t>& p) { uint64_t r = p[0]; p.erase(p.begin()); p.push_back(r); return r; }
static PRNG make(const std::string& k, uint64_t s) {
  if (k == "lcg") return PRNG::linear_congruential(s);
  if (k == "xoshiro") return PRNG::xoshiro(s);
  if (k == "splitmix") return PRNG::splitmix64(s);
  if (k == "wyrand") return PRNG::wyrand(s);
  return PRNG::middlesquare(s);
}
static Ev state(const std::string& g) { return Ev("state").s("g", g).u("x", G(g).last()).uv("p", G(g).get_param()); }

static VD xs, ys, fs, C;
static double pol(double x) { double r = 0; for (size_t i = C.size(); i-- > 0;) r = r * x + C[i]; return r; }
static double feval(double x) { double r = pol(x); xs.push_back(x); fs.push_back(r); return r; }
static double feval2(double x, double y) { double r = pol(x) + x * y + y; xs.push_back(x); ys.push_back(y); fs.push_back(r); return r; }
static double fvec2(th::vec<real, 2> v) { return feval2(v[0], v[1]); }
static double ffun2(real x, real y) { return feval2(x, y); }

static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s();
  xs.clear(); ys.clear(); fs.clear();
  if (op == "new") {
    std::string g = t.s(), k = t.s(); uint64_t s = t.u();
    set(g, make(k, s));
    out.push_back(Ev("new").s("g", g).s("kind", k).u("seed", s).uv("p", VU()).u("x", G(g).last()).uv("q", G(g).get_param()));
  } else if (op == "script") {
    std::string g = t.s(); VU p = t.vu();
    set(g, PRNG(script, 5, p));
    out.push_back(Ev("new").s("g", g).s("kind", "script").u("seed", 5).uv("p", p).u("x", G(g).last()).uv("q", G(g).get_param()));
  } else if (op == "sample") {
    std::string g = t.s(), d = t.s(), how = t.s();
    VD th_ = t.vd();
    PRNG& p = G(g);
    std::vector<real> th(th_.begin(), th_.end());
    double r; int n = 12; uint64_t prec = 2147483648ull;
    VD rs;
    int reps = 1;
    if (how == "sampler" || how == "fill" || how == "filln" || how == "shift") {
      pdf_sampler s = d == "uniform" ? pdf_sampler::uniform(th[0], th[1], p) : d == "polar" ? pdf_sampler::gaussian(th[0], th[1], p)
        : d == "exponential" ? pdf_sampler::exponential(th[0], p) : d == "cauchy" ? pdf_sampler::cauchy(th[0], th[1], p)
        : d == "rayleigh" ? pdf_sampler::rayleigh(th[0], p) : d == "pareto" ? pdf_sampler::pareto(th[0], th[1], p)
        : d == "laplace" ? pdf_sampler::laplace(th[0], th[1], p) : d == "coin" ? pdf_sampler(th::rand_cointoss, th, p) : pdf_sampler(th::rand_diceroll, th, p);
      if (how == "sampler") { rs.push_back(s.next()); rs.push_back(s()); }
      else if (how == "shift") { real a, b; s >> a >> b; rs.push_back(a); rs.push_back(b); }
      else if (how == "fill") { th::vec<real> v(3); s.fill(v); for (int k = 0; k < 3; ++k) rs.push_back(v[k]); }
      else { std::vector<real> v(4, 77.0); s.fill(v, 3); for (int k = 0; k < 3; ++k) rs.push_back(v[k]); if (v[3] != 77.0) rs.push_back(v[3]); }
    } else if (how == "theta") {
      if (d == "uniform") r = th::rand_uniform(th, p);
      else if (d == "coin") r = th::rand_cointoss(th, p);
      else if (d == "dice") r = th::rand_diceroll(th, p);
      else if (d == "polar") r = th::rand_gaussian(th, p);
      else if (d == "exponential") r = th::rand_exponential(th, p);
      else if (d == "rayleigh") r = th::rand_rayleigh(th, p);
      else if (d == "cauchy") r = th::rand_cauchy(th, p);
      else if (d == "laplace") r = th::rand_laplace(th, p);
      else r = th::rand_pareto(th, p);
      rs.push_back(r);
    } else {
      if (d == "uniform") { if (t.more()) { prec = t.u(); r = th::rand_uniform(th[0], th[1], p, prec); } else r = th::rand_uniform(th[0], th[1], p); }
      else if (d == "coin") r = th::rand_cointoss(p);
      else if (d == "dice") r = th::rand_diceroll((unsigned) th[0], p);
      else if (d == "polar") r = th::rand_gaussian_polar(th[0], th[1], p);
      else if (d == "boxmuller") r = th::rand_gaussian_boxmuller(th[0], th[1], p);
      else if (d == "clt") { if (t.more()) { n = t.i(); r = th::rand_gaussian_clt(th[0], th[1], p, n); } else r = th::rand_gaussian_clt(th[0], th[1], p); }
      else if (d == "exponential") r = th::rand_exponential(th[0], p);
      else if (d == "rayleigh") r = th::rand_rayleigh(th[0], p);
      else if (d == "cauchy") r = th::rand_cauchy(th[0], th[1], p);
      else if (d == "laplace") r = th::rand_laplace(th[0], th[1], p);
      else r = th::rand_pareto(th[0], th[1], p);
      rs.push_back(r);
    }
    for (double v : rs) out.push_back(Ev("sample").s("g", g).s("dist", d).v("th", th).i("n", n).u("prec", prec).d("r", v));
    out.push_back(state(g));
  } else if (op == "shuffle") {
    std::string g = t.s(); int rounds = t.i(); std::string ty = t.s(); std::vector<int> x = t.vi(), y;
    if (ty == "vec") { th::vec<real> v(x.size()); for (size_t k = 0; k < x.size(); ++k) v[k] = x[k]; if (rounds) th::shuffle(v, G(g), rounds); else th::shuffle(v, G(g)); for (size_t k = 0; k < x.size(); ++k) y.push_back((int) v[k]); }
    else { y = x; if (rounds) th::shuffle(y, G(g), rounds); else th::shuffle(y, G(g)); }
    out.push_back(Ev("shuffle").s("g", g).i("rounds", rounds).iv("x", x).iv("y", y));
    out.push_back(state(g));
  } else if (op == "trycatch") {
    std::string g = t.s(); C = t.vd(); double x1 = t.d(), x2 = t.d(), y1 = t.d(), y2 = t.d(); int mx = t.i();
    th::vec<real> th0(1);
    double r = mx == 100 ? th::rand_trycatch([](real x, const th::vec<real>&) { return feval(x); }, th0, x1, x2, y1, y2, G(g))
             : th::rand_trycatch([](real x, const th::vec<real>&) { return feval(x); }, th0, x1, x2, y1, y2, G(g), mx);
    out.push_back(Ev("trycatch").s("g", g).d("x1", x1).d("x2", x2).d("y1", y1).d("y2", y2).i("max", mx).v("xs", xs).v("fs", fs).d("r", r));
    out.push_back(state(g));
  } else if (op == "reject") {
    std::string g = t.s(); C = t.vd(); double x1 = t.d(), x2 = t.d(), pc = t.d(); int mx = t.i();
    th::vec<real> th0(1);
    auto f = [](real x, const th::vec<real>&) { return feval(x); };
    auto P = [pc](real) { return pc; };
    auto I = [x1, x2](real u) { return x1 + u * (x2 - x1); };
    double r = mx == 100 ? th::rand_rejectsamp(f, th0, P, I, G(g)) : th::rand_rejectsamp(f, th0, P, I, G(g), mx);
    out.push_back(Ev("reject").s("g", g).d("x1", x1).d("x2", x2).d("pc", pc).i("max", mx).v("xs", xs).v("fs", fs).d("r", r));
    out.push_back(state(g));
  } else if (op == "metropolis") {
    std::string ga = t.s(), gb = t.s(); double w = t.d(), x0 = t.d(); int depth = t.i();
    pdf_sampler s = pdf_sampler::uniform(-w, w, G(ga));
    auto pdf = [](real x) { return 1.0 / (1.0 + x * x); };
    double r;
    if (ga == gb) r = depth == 16 ? th::metropolis(pdf, s, x0) : th::metropolis(pdf, s, x0, (unsigned) depth);
    else r = depth == 16 ? th::metropolis(pdf, s, x0, G(gb)) : th::metropolis(pdf, s, x0, G(gb), depth);
    out.push_back(Ev("metropolis").s("ga", ga).s("gb", gb).d("w", w).d("x0", x0).i("depth", depth).d("r", r));
    out.push_back(state(ga)); out.push_back(state(gb));
  } else if (op == "mc") {
    std::string g = t.s(), kind = t.s(); C = t.vd(); unsigned N = t.i();
    double a = t.d(), b = t.d(), c = t.d(), d = t.d(), m = t.d();
    double alpha = t.d(), r = 0; bool approx = alpha == 0 && kind == "qcrude2";
    PRNG& p = G(g);
    th::vec<th::vec2, 2> ext;
    ext[0] = {a, b}; ext[1] = {c, d};
    if (kind == "crude") r = th::integral_crude(feval, a, b, p, N);
    else if (kind == "crude2") r = th::integral_crude<2>(fvec2, ext, p, N);
    else if (kind == "qcrude") r = th::integral_quasi_crude(feval, a, b, N);
    else if (kind == "qcrude2") {
      if (alpha == 0) { r = th::integral_quasi_crude<2>(fvec2, ext, N); alpha = 0.7548776662466927; }
      else { th::vec<real, 2> al; al[0] = alpha; al[1] = alpha * alpha; r = th::integral_quasi_crude<2>(fvec2, ext, N, al); }
    }
    else if (kind == "hom") r = th::integral_hom(feval, a, b, c, d, p, N);
    else if (kind == "homf") r = th::integral_hom(feval, a, b, d, p, N);
    else if (kind == "qhom") r = th::integral_quasi_hom(feval, a, b, c, d, N);
    else if (kind == "qhomf") r = th::integral_quasi_hom(feval, a, b, d, N);
    else if (kind == "hom2d") r = th::integral_hom_2d(ffun2, a, b, c, d, m, p, N);
    else if (kind == "imp") r = th::integral_impsamp(feval, [](real) { return 0.5; }, [](real u) { return 2 * u; }, p, N);
    else r = th::integral_quasi_impsamp(feval, [](real) { return 0.5; }, [](real u) { return 2 * u; }, N);
    out.push_back(Ev("mc").s("g", g).s("kind", kind).i("N", N).d("a", a).d("b", b).d("c", c).d("d", d).d("m", m).d("alpha", alpha).b("approx", approx).v("xs", xs).v("ys", ys).v("fs", fs).d("r", r));
    out.push_back(state(g));
  } else if (op == "weyl") {
    int n = t.i();
    if (t.more()) { double al = t.d(); out.push_back(Ev("weyl").i("n", n).d("alpha", al).d("r", th::qrand_weyl(n, al))); }
    else {
      out.push_back(Ev("weyl").i("n", n).d("alpha", 0.6180339887498948482045868).d("r", th::qrand_weyl(n)));
      th::vec2 v = th::qrand_weyl2(n);
      out.push_back(Ev("weylm").i("n", n).d("alpha", 0.7548776662466927).v("r", v));
    }
  } else if (op == "weylr") {
    double prev = t.d();
    if (t.more()) { double al = t.d(); out.push_back(Ev("weylr").d("prev", prev).d("alpha", al).d("r", th::qrand_weyl_recurr(prev, al))); }
    else out.push_back(Ev("weylr").d("prev", prev).d("alpha", 0.6180339887498948482045868).d("r", th::qrand_weyl_recurr(prev)));
  } else if (op == "weylm") {
    int n = t.i(); double al = t.d();
    th::vec<real, 3> v = th::qrand_weyl_multi<3>(n, al);
    out.push_back(Ev("weylm").i("n", n).d("alpha", al).v("r", v));
  } else if (op == "samplemc") {
    double a = t.d(), b = t.d(), l = t.d(); unsigned N = t.i();
    std::vector<pdf_sampler> rv = {pdf_sampler::uniform(a, b, G("a")), pdf_sampler::exponential(l, G("b"))};
    auto r = th::sample_mc([](th::vec<real> v) { return v[0] + 2 * v[1]; }, rv, N);
    out.push_back(Ev("samplemc").v("th", VD{a, b}).d("lambda", l).i("N", N).v("r", r));
    out.push_back(state("a")); out.push_back(state("b"));
  } else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(77); }
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
