#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec; using th::vec2; using th::polynomial;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
template<unsigned N> static vec<real, N> mk(const VD& x) { vec<real, N> v; for (unsigned i = 0; i < N; ++i) v[i] = x[i]; return v; }
static S pts(const std::vector<VD>& P) { S s = "["; for (size_t i = 0; i < P.size(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < P[i].size(); ++j) s += (j ? ",\"" : "\"") + hex(P[i][j]) + "\""; s += "]"; } return s + "]"; }
#ifdef THEORETICA_X86
static const double ACC = 0;
#else
static const double ACC = 1e-8;
#endif
static VD P; static std::vector<VD> calls;
static real pf(real x) { long double y = 0; for (size_t i = P.size(); i-- > 0;) y = y * x + P[i]; calls.push_back({x, (real) y}); return (real) y; }
template<unsigned N> static void vecs(const S& op, Tok& t, Ev& e) {
  using namespace th;
  if (op == "vlerp" || op == "nlerp") {
    VD p = t.vd(), q = t.vd(); real s = t.d(); errno = 0; auto r = op == "vlerp" ? lerp(mk<N>(p), mk<N>(q), s) : nlerp(mk<N>(p), mk<N>(q), s);
    e.i("err", errno).v("p", p).v("q", q).d("t", s).d("acc", ACC).v("r", r);
  } else if (op == "slerp") {
    real a = t.d(), w = t.d(), k1 = t.d(), k2 = t.d(), s = t.d(); VD p(N, 0.0), q(N, 0.0);
    // unit vectors in a plane at the angle w of each other, turned by a; in more dimensions the plane is tilted
    double u[2] = {(double) cosl(a), (double) sinl(a)}, v[2] = {(double) cosl((long double) a + w), (double) sinl((long double) a + w)};
    p[0] = u[0] * k1; q[0] = v[0] * k2; double c = N > 2 ? 0.6 : 1.0, d = N > 2 ? 0.8 : 0.0; p[1] = u[1] * c * k1; q[1] = v[1] * c * k2; if (N > 2) { p[N - 1] = u[1] * d * k1; q[N - 1] = v[1] * d * k2; }
    errno = 0; auto r = slerp(mk<N>(p), mk<N>(q), s); e.i("err", errno).v("p", p).v("q", q).d("w", w).d("t", s).v("r", r);
  } else if (op == "vinv" || op == "vremap") {
    VD p = t.vd(), q = t.vd(); bool same = true; for (unsigned i = 1; i < N; ++i) same = same && p[i] == p[0] && q[i] == q[0];
    if (op == "vinv") { real s = t.d(); errno = 0; real r = invlerp(mk<N>(p), mk<N>(q), s); e.i("err", errno).v("p", p).v("q", q).d("t", s).b("same", same).d("r", r); }
    else { VD u = t.vd(), v = t.vd(); real s = t.d(); errno = 0; auto r = remap(mk<N>(p), mk<N>(q), mk<N>(u), mk<N>(v), s); e.i("err", errno).v("p", p).v("q", q).v("u", u).v("v", v).d("t", s).v("r", r); }
  } else if (op == "bezier") {
    S m = t.s(); int n = t.i(); std::vector<VD> C; std::vector<vec<real, N>> c; for (int i = 0; i < n; ++i) { C.push_back(t.vd()); c.push_back(mk<N>(C.back())); } real s = t.d(); errno = 0;
    vec<real, N> r = m == "quad" ? quadratic_bezier(c[0], c[1], c[2], s) : m == "cubic" ? cubic_bezier(c[0], c[1], c[2], c[3], s) : bezier(c, s);
    e.s("m", m).i("err", errno).raw("P", pts(C)).d("t", s).v("r", r);
  } else bad(op);
}
static VD co(const polynomial<real>& p) { VD r; for (size_t i = 0; i < p.coeff.size(); ++i) r.push_back(p.coeff[i]); return r; }
static void run(Tok& t, std::vector<Ev>& out) {
  using namespace th;
  S op = t.s(); Ev e(op); calls.clear();
  if (op == "lerp" || op == "invlerp") { VD x = t.vd(); real s = t.d(); errno = 0; real r = op == "lerp" ? lerp(x[0], x[1], s) : invlerp(x[0], x[1], s); e.i("err", errno).v("x", x).d("t", s).d("r", r); }
  else if (op == "remap") { VD x = t.vd(); real s = t.d(); errno = 0; real r = remap(x[0], x[1], x[2], x[3], s); e.i("err", errno).v("x", x).d("t", s).d("r", r); }
  else if (op == "smooth") { int k = t.i(); VD x = t.vd(); real s = t.d(); errno = 0; real r = k == 1 ? smoothstep(x[0], x[1], s) : smootherstep(x[0], x[1], s); e.i("err", errno).i("k", k).v("x", x).d("t", s).d("r", r); }
  else if (op == "lagrange") {
    int n = t.i(); std::vector<VD> C; std::vector<vec2> c; for (int i = 0; i < n; ++i) { C.push_back(t.vd()); c.push_back(mk<2>(C.back())); } errno = 0; auto r = lagrange_polynomial(c);
    e.i("err", errno).raw("P", pts(C)).v("r", co(r));
  } else if (op == "cheb") { real a = t.d(), b = t.d(); int n = t.i(); errno = 0; auto r = chebyshev_nodes(a, b, n); e.i("err", errno).d("a", a).d("b", b).i("n", n).v("r", r); }
  else if (op == "grid") {
    S m = t.s(); P = t.vd(); real a = t.d(), b = t.d(); int n = t.i(); errno = 0; auto r = m == "cheb" ? interpolate_chebyshev(pf, a, b, n) : interpolate_grid(pf, a, b, n);
    e.i("err", errno).s("m", m).d("a", a).d("b", b).i("n", n).v("r", co(r)).raw("calls", pts(calls));
  } else if (op == "spline") {
    S m = t.s(); VD x = t.vd(), y = t.vd(), at = t.vd(); std::vector<vec2> c; for (size_t i = 0; i < x.size() && i < y.size(); ++i) c.push_back({x[i], y[i]});
    std::vector<spline_node> N; VD val, der; errno = 0;
    auto ev = [&](const spline& s) { N = s.nodes; for (real X : at) { val.push_back(s(X)); der.push_back(s.deriv(X)); } };
    if (m == "pts") { spline s(c); ev(s); } else if (m == "xy") { vec<real> vx(x.size()), vy(y.size()); for (size_t i = 0; i < x.size(); ++i) vx[i] = x[i]; for (size_t i = 0; i < y.size(); ++i) vy[i] = y[i]; spline s(vx, vy); ev(s); }
    else if (m == "copy") { spline s(x, y), w(c); w = s; spline z(w); ev(z); }
    else if (m == "fpts") N = cubic_splines(c); else if (m == "fxy") N = cubic_splines(x, y); else bad(m);
    std::vector<VD> n; for (auto& k : N) n.push_back({k.x, k.a, k.b, k.c, k.d});
    if (val.empty()) at.clear();
    e.i("err", errno).v("x", x).v("y", y).raw("N", pts(n)).v("at", at).v("val", val).v("der", der);
  } else { int N = t.i(); if (N == 2) vecs<2>(op, t, e); else if (N == 3) vecs<3>(op, t, e); else if (N == 4) vecs<4>(op, t, e); else bad(op); }
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
