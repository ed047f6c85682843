#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
struct Term { double c; std::vector<int> q; };            // q[0] power of t
typedef std::vector<std::vector<Term>> G;
static G g;
static G rhs(Tok& t) {
  int n = t.i(); G r(n);
  for (auto& s : r) { int k = t.i(); while (k--) { Term m; m.c = t.d(); for (int i = 0; i <= n; ++i) m.q.push_back(t.i()); s.push_back(m); } }
  return r;
}
static S js(const G& r) {
  S o = "[";
  for (size_t i = 0; i < r.size(); ++i) { o += i ? ",[" : "["; for (size_t k = 0; k < r[i].size(); ++k) { o += k ? ",[" : "["; o += "\"" + hex(r[i][k].c) + "\""; for (int q : r[i][k].q) o += "," + std::to_string(q); o += "]"; } o += "]"; }
  return o + "]";
}
static real val(size_t i, real t, const VD& x) {
  long double s = 0;
  for (auto& m : g[i]) { long double p = m.c; for (int k = 0; k < m.q[0]; ++k) p *= t; for (size_t j = 0; j < x.size(); ++j) for (int k = 0; k < m.q[j + 1]; ++k) p *= x[j]; s += p; }
  return (real) s;
}
// conversions between the state types and a list of numbers
static VD list(real x) { return VD{x}; }
template<unsigned N> static VD list(const vec<real, N>& x) { VD v; for (unsigned i = 0; i < x.size(); ++i) v.push_back(x[i]); return v; }
template<class V> struct Mk { static V mk(const VD& v) { V x; x.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; } };
template<> struct Mk<real> { static real mk(const VD& v) { return v[0]; } };
template<class V> static V rf(real t, const V& x) { VD a = list(x), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(val(i, t, a)); return Mk<V>::mk(r); }
template<class V, class F> static V step(const S& m, F f, const V& x, real t, real h) {
  using namespace th::ode;
  if (m == "euler") return step_euler(f, x, t, h);
  if (m == "midpoint") return step_midpoint(f, x, t, h);
  if (m == "heun") return step_heun(f, x, t, h);
  if (m == "rk2") return step_rk2(f, x, t, h);
  if (m == "rk4") return step_rk4(f, x, t, h);
  if (m == "k38") return step_k38(f, x, t, h);
  bad(m);
}
template<class V, class F> static th::ode::ode_solution_t<V> solve(const S& m, bool fix, bool def, F f, const V& x, real t0, real tf, real h) {
  using namespace th::ode;
  if (fix) return solve_fixstep(f, x, t0, tf, [m](F k, const V& y, real t, real s) { return step<V, F>(m, k, y, t, s); }, h);
#define M(N) if (m == #N) return def ? solve_##N(f, x, t0, tf) : solve_##N(f, x, t0, tf, h);
  M(euler) M(midpoint) M(heun) M(rk2) M(rk4) M(k38)
  bad(m);
}
template<class V> static void go(const S& op, Tok& t, std::vector<Ev>& out) {
  S m = t.s(); Ev e(op); e.s("m", m); g = rhs(t); e.raw("g", js(g));
  auto f = [](real a, const V& x) { return rf<V>(a, x); };
  std::function<V(real, const V&)> sf = f;
  if (op == "step") {
    real a = t.d(), h = t.d(); VD x = t.vd(); bool std_ = t.i(); e.d("t", a).d("h", h).v("x", x); V y = Mk<V>::mk(x); errno = 0;
    V r = std_ ? step<V>(m, sf, y, a, h) : step<V>(m, f, y, a, h); e.i("err", errno).v("r", list(r));
  } else if (op == "multi") {
    int n = m == "adams2" ? 2 : 3; real h = t.d(); VD ts; std::vector<V> xs; S xj = "[";
    for (int i = 0; i < n; ++i) { ts.push_back(t.d()); VD x = t.vd(); xs.push_back(Mk<V>::mk(x)); if (i) xj += ","; xj += Ev::arr(x, x.size()); }
    e.d("h", h).v("ts", ts).raw("xs", xj + "]"); errno = 0;
    V r = n == 2 ? th::ode::step_adams2(f, xs[0], ts[0], xs[1], ts[1], h) : th::ode::step_adams3(f, xs[0], ts[0], xs[1], ts[1], xs[2], ts[2], h);
    e.i("err", errno).v("r", list(r));
  } else {
    S how = t.s(); real t0 = t.d(), tf = t.d(), h = t.d(); VD x = t.vd(); bool def = how == "def";
    if (def) h = m == "rk4" ? 0.01 : 0.0001;
    errno = 0; auto r = how == "std" ? solve<V>(m, false, def, sf, Mk<V>::mk(x), t0, tf, h) : solve<V>(m, how == "fix", def, f, Mk<V>::mk(x), t0, tf, h); int er = errno;
    VD ts = list(r.t); e.d("t0", t0).d("tf", tf).d("h", h).v("x0", x).i("err", er).i("n", r.t.size()).i("nx", r.x.size()).v("ts", ts); out.push_back(e);
    if (!er) for (unsigned i = 0; i < r.x.size() && i < ts.size(); ++i) { Ev p("point"); p.i("i", i + 1).d("t", ts[i]).v("x", list(r.x[i])); out.push_back(p); }
    return;
  }
  out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(), k = t.s();
  if (k == "real") go<real>(op, t, out); else if (k == "dyn") go<vec<real>>(op, t, out);
  else if (k == "2") go<vec<real, 2>>(op, t, out); else if (k == "3") go<vec<real, 3>>(op, t, out); else if (k == "4") go<vec<real, 4>>(op, t, out); else bad(k);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
