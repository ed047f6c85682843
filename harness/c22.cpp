#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec; using th::multidual;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
struct Loop {};
static VD calls; static bool keep; static long cnt, lim;
static void seen(real x) { if (++cnt > lim) throw Loop(); if (keep) calls.push_back(x); }
static S fam; static real fc, fs, foff;
static real raw(real x) {
  real z = x - fc;
  if (fam == "vee") return fs * std::fabs(z) + foff;
  if (fam == "skew") return fs * (z < 0 ? -z : 1000 * z) + foff;
  if (fam == "mono") return fs * z + foff;
  if (fam == "quad") return fs * (z * z) + foff;
  if (fam == "quart") return fs * ((z * z) * (z * z)) + foff;
  if (fam == "expm") return fs * (std::expm1(z) - z) + foff;
  if (fam == "any") return fs * std::sin(7 * z) + foff;
  bad(fam);
}
static real ff(real x) { int er = errno; real y = raw(x); errno = er; seen(x); return y; }
static VD P;
static real horner(const VD& p, real x) { long double y = 0; for (size_t i = p.size(); i-- > 0;) y = y * x + p[i]; return (real) y; }
static VD D(const VD& p) { VD r; for (size_t i = 1; i < p.size(); ++i) r.push_back(i * p[i]); return r; }
static real pf(real x) { seen(x); return horner(P, x); }
static real pd(real x) { seen(x); return horner(D(P), x); }
static real pd2(real x) { seen(x); return horner(D(D(P)), x); }
struct Term { double c; std::vector<int> q; };
static std::vector<Term> g;
template<unsigned N> static multidual<N> field(vec<multidual<N>, N> x) {
  if (++cnt > lim) throw Loop();
  multidual<N> s = x[0] * 0.0;
  for (auto& m : g) { multidual<N> p = x[0] * 0.0 + m.c; for (size_t j = 0; j < m.q.size(); ++j) for (int k = 0; k < m.q[j]; ++k) p = p * x[j]; s = s + p; }
  return s;
}
template<unsigned N> static void multi(Tok& t, Ev& e) {
  S m = t.s(); int kind = t.i(), n = t.i(), k = t.i(); g.clear(); S js = "[";
  for (int i = 0; i < k; ++i) { Term w; w.c = t.d(); js += (i ? ",[\"" : "[\"") + hex(w.c) + "\",0"; for (int j = 0; j < n; ++j) { w.q.push_back(t.i()); js += "," + std::to_string(w.q.back()); } js += "]"; g.push_back(w); }
  VD x = t.vd(); real gamma = t.d(); S ts = t.s(); bool def = ts == "def"; real tol = def ? (real) th::OPTIMIZATION_MINGRAD_TOLERANCE : strtod(ts.c_str(), 0); unsigned mx = t.i();
  vec<real, N> v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = x[i];
  vec<real, N> r; bool loop = false; errno = 0;
  if (def) { mx = th::OPTIMIZATION_MINGRAD_ITER; gamma = th::OPTIMIZATION_MINGRAD_GAMMA; }
  try {
    if (m == "grad") r = kind < 0 ? (def ? th::multi_minimize_grad<N>(field<N>, v) : th::multi_minimize_grad<N>(field<N>, v, gamma, tol, mx)) : def ? th::multi_maximize_grad<N>(field<N>, v) : th::multi_maximize_grad<N>(field<N>, v, gamma, tol, mx);
    else if (m == "lingrad") r = kind < 0 ? (def ? th::multi_minimize_lingrad<N>(field<N>, v) : th::multi_minimize_lingrad<N>(field<N>, v, tol, mx)) : def ? th::multi_maximize_lingrad<N>(field<N>, v) : th::multi_maximize_lingrad<N>(field<N>, v, tol, mx);
    else if (m == "best") { r = kind < 0 ? (def ? th::multi_minimize<N>(field<N>, v) : th::multi_minimize<N>(field<N>, v, tol)) : def ? th::multi_maximize<N>(field<N>, v) : th::multi_maximize<N>(field<N>, v, tol); mx = th::OPTIMIZATION_MINGRAD_ITER; }
    else bad(m);
  } catch (Loop) { loop = true; }
  int er = errno; e.s("m", m).i("kind", kind).raw("f", js + "]").v("x", x).d("gamma", gamma).d("tol", tol).i("max", mx).i("err", er).b("loop", loop).v("r", r);
}
static void run(Tok& t, std::vector<Ev>& out) {
  using namespace th;
  S op = t.s(); Ev e(op); calls.clear(); cnt = 0; lim = 20000; keep = false; bool loop = false; real r = 0;
  if (op == "golden") {
    int kind = t.i(); fam = t.s(); fc = t.d(); fs = t.d(); foff = t.d(); real a = t.d(), b = t.d(); keep = true; errno = 0;
    try { r = kind > 0 ? maximize_goldensection(ff, a, b) : minimize_goldensection([](real x) { return ff(x); }, a, b); } catch (Loop) { loop = true; }
    e.i("kind", kind).s("f", fam).d("c", fc).d("s", fs).d("off", foff).d("a", a).d("b", b).i("err", errno).b("loop", loop).d("r", r).v("calls", calls);
  } else if (op == "newton") {
    int kind = t.i(); P = t.vd(); S gs = t.s(); real x = gs == "def" ? 0.0 : strtod(gs.c_str(), 0); errno = 0;
    try { r = kind > 0 ? (gs == "def" ? maximize_newton(pf, pd, pd2) : maximize_newton(pf, pd, pd2, x)) : gs == "def" ? minimize_newton(pf, pd, pd2) : minimize_newton(pf, pd, pd2, x); } catch (Loop) { loop = true; }
    e.i("kind", kind).v("p", P).d("guess", x).i("err", errno).b("loop", loop).d("r", r);
  } else if (op == "bisect") {
    int kind = t.i(); P = t.vd(); real a = t.d(), b = t.d(); errno = 0;
    try { r = kind > 0 ? maximize_bisection(pf, pd, a, b) : minimize_bisection(pf, pd, a, b); } catch (Loop) { loop = true; }
    e.i("kind", kind).v("p", P).d("a", a).d("b", b).i("err", errno).b("loop", loop).d("r", r);
  } else if (op == "grad") { lim = 4000000; S k = t.s(); if (k == "1") multi<1>(t, e); else if (k == "2") multi<2>(t, e); else if (k == "3") multi<3>(t, e); else if (k == "dyn") multi<0>(t, e); else bad(k); }
  else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
