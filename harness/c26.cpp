#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using namespace th;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
namespace D = th::distribution;
static real direct(const S& f, real x, const VD& p) {
  if (f == "gaussian") return D::gaussian(x, p[0], p[1]);
  if (f == "bernoulli") return D::bernoulli((unsigned) x, p[0]);
  if (f == "poisson") return D::poisson((unsigned) x, p[0]);
  if (f == "binomial") return D::binomial((unsigned) x, (unsigned) p[0], p[1]);
  if (f == "chi_squared") return D::chi_squared(x, (unsigned) p[0]);
  if (f == "gamma") return D::gamma(x, p[0], p[1]);
  if (f == "beta") return D::beta(x, p[0], p[1]);
  if (f == "student") return D::student(x, (unsigned) p[0]);
  if (f == "log_normal") return D::log_normal(x, p[0], p[1]);
  if (f == "exponential") return D::exponential(x, p[0]);
  if (f == "rayleigh") return D::rayleigh(x, p[0]);
  if (f == "cauchy") return D::cauchy(x, p[0], p[1]);
  if (f == "breit_wigner") return D::breit_wigner(x, p[0], p[1]);
  if (f == "maxwell") return D::maxwell(x, p[0]);
  if (f == "laplace") return D::laplace(x, p[0], p[1]);
  if (f == "pareto") return D::pareto(x, p[0], p[1]);
  if (f == "erlang") return D::erlang(x, (unsigned) p[0], p[1]);
  bad(f);
}
typedef real (*F)(real, const vec<real>&);
static F byvec(const S& f) {
  static const std::map<S, F> m{{"gaussian", D::gaussian}, {"bernoulli", D::bernoulli}, {"poisson", D::poisson}, {"binomial", D::binomial}, {"chi_squared", D::chi_squared}, {"gamma", D::gamma}, {"beta", D::beta}, {"student", D::student}, {"log_normal", D::log_normal}, {"exponential", D::exponential}, {"rayleigh", D::rayleigh}, {"cauchy", D::cauchy}, {"breit_wigner", D::breit_wigner}, {"maxwell", D::maxwell}, {"laplace", D::laplace}, {"pareto", D::pareto}, {"erlang", D::erlang}};
  auto i = m.find(f); if (i == m.end()) bad(f); return i->second;
}
static vec<real> mk(const VD& x) { vec<real> v(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
static bool disc(const S& f) { return f == "bernoulli" || f == "poisson" || f == "binomial"; }
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(); Ev e(op);
  if (op == "pdf") {
    S f = t.s(); real x = t.d(); VD p = t.vd(); vec<real> th = mk(p); errno = 0; real r2 = byvec(f)(x, th); real r = disc(f) && x < 0 ? r2 : direct(f, x, p); int er = errno;
    if (f == "chi_squared") { real r3 = D::chi_squared(x, (unsigned) p[0], special::half_gamma((unsigned) p[0])); if (!(r3 == r) && !(r3 != r3 && r != r)) r = r3; }
    e.s("f", f).d("x", x).v("th", p).d("r", r).d("r2", r2).i("err", er);
  } else if (op == "size") { S f = t.s(); VD p = t.vd(); errno = 0; real r = byvec(f)(1.0, mk(p)); int er = errno; e.s("f", f).v("th", p).d("r", r).i("err", er); }
  else if (op == "mass") { S f = t.s(); int n = t.i(); VD p = t.vd(); VD r; for (int k = 0; k <= n; ++k) r.push_back(k % 2 ? direct(f, k, p) : byvec(f)(k, mk(p))); e.s("f", f).v("th", p).v("r", r); }
  else if (op == "multi") { VD x = t.vd(); int n = t.i(), k = t.i(); VD p = t.vd(); std::vector<unsigned> u(x.begin(), x.end()); errno = 0; real r = D::multinomial(u, n, k, p); int er = errno; e.v("x", x).i("n", n).i("k", k).v("p", p).b("bad", x.size() != p.size() || (int) x.size() != k).d("r", r).i("err", er); }
  else if (op == "like") {
    S f = t.s(); VD p = t.vd(), x = t.vd(); VD fs; F g = byvec(f); for (double y : x) fs.push_back(g(y, mk(p)));
    e.s("d", f).v("th", p).v("x", x).v("f", fs).d("l", stats::likelihood(mk(x), mk(p), g)).d("ll", stats::log_likelihood(mk(x), mk(p), g));
  } else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
