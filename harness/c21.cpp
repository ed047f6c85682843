#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec; using th::dual; using th::dual2; using th::multidual; using th::complex; using th::polynomial;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
struct Loop {};
static std::vector<std::pair<double, double>> calls; static bool keep; static long cnt;
static void seen(real x, real y) { if (++cnt > 20000) throw Loop(); if (keep) calls.emplace_back(x, y); }
// functions for the bracketing methods
static S fam; static real fc, fs; static VD P;
static real raw(real x) {
  real z = x - fc;
  if (fam == "lin") return fs * z;
  if (fam == "cube") return fs * z * z * z;
  if (fam == "flat") return fs * std::pow(z, 21);
  if (fam == "step") return z < 0 ? -fs : fs;
  if (fam == "cbrt") return fs * std::cbrt(z);
  if (fam == "exp") return fs * std::expm1(z);
  if (fam == "sin") return fs * std::sin(z);
  if (fam == "para") return fs * (z * z - 1);
  if (fam == "int") return fs * (z * (z - 1) * (z + 1) * (z - 2));
  if (fam == "wild") return fs * (z * (z - .3) * (z + .2) + .05 * std::sin(40 * z));
  if (fam == "const") return fs;
  if (fam == "tail") return z > 0 ? fs * z : z < -1 ? -fs * 1e-3 : fs * z * 1e-3;
  bad(fam);
}
static real ff(real x) { int er = errno; real y = raw(x); errno = er; seen(x, y); return y; }
static real horner(const VD& p, real x) { long double y = 0; for (size_t i = p.size(); i-- > 0;) y = y * x + p[i]; return (real) y; }
static VD D(const VD& p) { VD r; for (size_t i = 1; i < p.size(); ++i) r.push_back(i * p[i]); return r; }
static real pf(real x) { real y = horner(P, x); seen(x, y); return y; }
static real pd(real x) { return horner(D(P), x); }
static real pd2(real x) { return horner(D(D(P)), x); }
template<class T> static T gen(T x) { T y = T(0.0); for (size_t i = P.size(); i-- > 0;) y = y * x + P[i]; seen(x.Re(), y.Re()); return y; }
static dual dp(dual x) { return gen(x); }
static dual2 d2p(dual2 x) { return gen(x); }
typedef complex<real> C;
static std::vector<C> CP;
static C cval(const std::vector<C>& p, C z) { C y(0, 0); for (size_t i = p.size(); i-- > 0;) y = C(y.Re() * z.Re() - y.Im() * z.Im() + p[i].Re(), y.Re() * z.Im() + y.Im() * z.Re() + p[i].Im()); return y; }
static C cf(C z) { C y = cval(CP, z); seen(z.Re(), y.Re()); return y; }
static C cdf(C z) { std::vector<C> d; for (size_t i = 1; i < CP.size(); ++i) d.push_back(C(i * CP[i].Re(), i * CP[i].Im())); return cval(d, z); }
// systems
struct Term { double c; std::vector<int> q; };
static std::vector<std::vector<Term>> g;
template<unsigned N> static vec<multidual<N>, N> sys(vec<multidual<N>, N> x) {
  if (++cnt > 200000) throw Loop();
  vec<multidual<N>, N> r; r.resize(g.size());
  for (size_t i = 0; i < g.size(); ++i) { multidual<N> s = x[0] * 0.0; for (auto& m : g[i]) { multidual<N> p = x[0] * 0.0 + m.c; for (size_t j = 0; j < m.q.size(); ++j) for (int k = 0; k < m.q[j]; ++k) p = p * x[j]; s = s + p; } r[i] = s; }
  return r;
}
template<unsigned N> static void multi(Tok& t, Ev& e) {
  int n = t.i(); g.assign(n, {}); S js = "[";
  for (int i = 0; i < n; ++i) { js += i ? ",[" : "["; int k = t.i(); for (int m = 0; m < k; ++m) { Term w; w.c = t.d(); js += (m ? ",[\"" : "[\"") + hex(w.c) + "\",0"; for (int j = 0; j < n; ++j) { w.q.push_back(t.i()); js += "," + std::to_string(w.q.back()); } js += "]"; g[i].push_back(w); } js += "]"; }
  VD x = t.vd(); real tol = t.d(); unsigned mx = t.i(); vec<real, N> v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = x[i];
  e.raw("g", js + "]").v("x", x).d("tol", tol).i("max", mx); errno = 0;
  vec<real, N> r = th::multiroot_newton<N>(sys<N>, v, tol, mx); e.i("err", errno).v("r", r);
}
static S cj() { S c = "["; for (size_t i = 0; i < calls.size(); ++i) { if (i) c += ","; c += "[\"" + hex(calls[i].first) + "\",\"" + hex(calls[i].second) + "\"]"; } return c + "]"; }
static real solve1(const S& m, bool def, real x, real tol, unsigned mx) {
  using namespace th; real r = 0;
      if (m == "newton") r = def ? root_newton(pf, pd, x) : root_newton(pf, pd, x, tol, mx);
      else if (m == "newtonf") { std::function<real(real)> f = pf, d = pd; r = root_newton(f, d, x, tol, mx); }
      else if (m == "newtond") r = def ? root_newton(dp, x) : root_newton(dp, x, tol, mx);
      else if (m == "halley") r = def ? root_halley(pf, pd, pd2, x) : root_halley(pf, pd, pd2, x, tol, mx);
      else if (m == "halleyd") r = def ? root_halley(d2p, x) : root_halley(d2p, x, tol, mx);
      else if (m == "steffensen") r = def ? root_steffensen(pf, x) : root_steffensen(pf, x, tol, mx);
      else if (m == "chebyshev") r = def ? root_chebyshev(pf, pd, pd2, x) : root_chebyshev(pf, pd, pd2, x, tol, mx);
      else if (m == "chebyshevd") r = def ? root_chebyshev(d2p, x) : root_chebyshev(d2p, x, tol, mx);
      else if (m == "ostrowski") r = def ? root_ostrowski(pf, pd, x) : root_ostrowski(pf, pd, x, tol, mx);
      else if (m == "jarrat") r = def ? root_jarrat(pf, pd, x) : root_jarrat(pf, pd, x, tol, mx);
      else bad(m);
  return r;
}
static void run(Tok& t, std::vector<Ev>& out) {
  using namespace th;
  S op = t.s(); Ev e(op); calls.clear(); cnt = 0; keep = true; bool loop = false;
  if (op == "bracket") {
    S m = t.s(); fam = t.s(); fc = t.d(); fs = t.d(); real a = t.d(), b = t.d(); S ts = t.s(); real tol = ts == "def" ? (real) OPTIMIZATION_TOL : strtod(ts.c_str(), 0); int mx = t.i(); int n0 = t.i(); real k1 = t.d(), r = 0; errno = 0;
    try { r = m == "bisect" ? (ts == "def" ? root_bisect(ff, a, b) : root_bisect([](real x) { return ff(x); }, a, b, tol, mx)) : ts == "def" ? root_itp(ff, a, b) : n0 < 0 ? root_itp(ff, a, b, tol) : root_itp(ff, a, b, tol, n0, k1); } catch (Loop) { loop = true; }
    e.s("m", m).d("a", a).d("b", b).d("tol", tol).i("max", m == "bisect" ? (ts == "def" ? (int) OPTIMIZATION_BISECTION_ITER : mx) : 10000).i("err", errno).b("loop", loop).d("r", r).raw("calls", cj());
  } else if (op == "open") {
    S m = t.s(); P = t.vd(); real x = t.d(); S ts = t.s(); bool def = ts == "def"; real tol = def ? (real) OPTIMIZATION_TOL : strtod(ts.c_str(), 0); unsigned mx = t.i(); if (def) mx = 100; real r = 0; keep = false; errno = 0;
    try { r = solve1(m, def, x, tol, mx); } catch (Loop) { loop = true; }
    e.s("m", m).v("p", P).d("guess", x).d("tol", tol).i("max", mx).i("err", errno).b("loop", loop).d("r", r);
  } else if (op == "order") { // the least number of iterations that suffices
    S m = t.s(); P = t.vd(); real x = t.d(), tol = t.d(), r = 0; keep = false; unsigned mx = 0, er = 1;
    try { while (er && mx < 40) { errno = 0; r = solve1(m, false, x, tol, ++mx); er = errno; } } catch (Loop) { loop = true; }
    e.s("m", m).v("p", P).d("guess", x).d("tol", tol).i("it", mx).i("err", er).b("loop", loop).d("r", r);
  } else if (op == "copen") {
    VD c = t.vd(); CP.clear(); S js = "["; for (size_t i = 0; i + 1 < c.size(); i += 2) { CP.emplace_back(c[i], c[i + 1]); js += (i ? ",[\"" : "[\"") + hex(c[i]) + "\",\"" + hex(c[i + 1]) + "\"]"; }
    real u = t.d(), v = t.d(), tol = t.d(); unsigned mx = t.i(); C r(0, 0); keep = false; errno = 0;
    try { r = root_newton(cf, cdf, C(u, v), tol, mx); } catch (Loop) { loop = true; }
    e.raw("p", js + "]").v("guess", VD{u, v}).d("tol", tol).i("max", mx).i("err", errno).b("loop", loop).v("r", VD{r.Re(), r.Im()});
  } else if (op == "multi") { S k = t.s(); if (k == "1") multi<1>(t, e); else if (k == "2") multi<2>(t, e); else if (k == "3") multi<3>(t, e); else if (k == "dyn") multi<0>(t, e); else bad(k); }
  else if (op == "ivals") {
    fam = t.s(); fc = t.d(); fs = t.d(); real a = t.d(), b = t.d(); int n = t.i(); errno = 0; auto r = n < 0 ? find_root_intervals(ff, a, b) : find_root_intervals(ff, a, b, n); if (n < 0) n = 10;
    int er = errno; S js = "["; for (size_t i = 0; i < r.size(); ++i) js += (i ? ",[\"" : "[\"") + hex(r[i][0]) + "\",\"" + hex(r[i][1]) + "\"]";
    e.d("a", a).d("b", b).i("n", n).i("err", er).raw("r", js + "]").raw("calls", cj());
  } else if (op == "roots") {
    fam = t.s(); fc = t.d(); fs = t.d(); real a = t.d(), b = t.d(), tol = t.d(); int n = t.i(); errno = 0; std::vector<real> r;
    try { r = n < 0 ? roots(ff, a, b, tol) : roots(ff, a, b, tol, (real) n); } catch (Loop) { loop = true; } if (n < 0) n = 10;
    e.d("a", a).d("b", b).d("tol", tol).i("n", n).i("err", errno).b("loop", loop).v("r", r).raw("calls", cj());
  } else if (op == "proots") {
    VD z = t.vd(), p = t.vd(); real tol = t.d(); unsigned n = t.i(); polynomial<real> q; q.coeff.resize(p.size()); for (size_t i = 0; i < p.size(); ++i) q.coeff[i] = p[i];
    errno = 0; auto r = roots(q, tol, n); e.v("z", z).d("tol", tol).i("err", errno).v("r", r);
  } else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
