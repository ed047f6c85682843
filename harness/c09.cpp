#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::real; using th::vec; using th::mat;
namespace al = th::algebra;
typedef std::vector<double> VD;
typedef std::string S;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static vec<real> dv(const VD& v) { vec<real> r; r.resize(v.size()); for (unsigned i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
template<unsigned N> static vec<real, N> fv(const VD& v) { vec<real, N> r; for (unsigned i = 0; i < N; ++i) r[i] = v[i]; return r; }
template<class M, class V> static M vop(const S& op, const V& v, double th_, unsigned a, unsigned b) {
  if (op == "diag") return al::diagonal<M>(v, a, b);
  if (op == "diagr") { M m; if (a) m.resize(a, b); al::diagonal(m, v); return m; }
  if (op == "trans") return al::translation<M>(v, a, b);
  return al::rotation_3d<M>(th_, v, a, b);
}
template<class M> static void go(const S& op, const S& vk, unsigned n, unsigned k, unsigned a, unsigned b, Tok& t, std::vector<Ev>& out) {
  Ev e(op == "diagr" ? "diag" : op); e.i("n", n).i("k", k); M m;
  if (op == "ident") { errno = 0; m = al::identity<M>(a, b); }
  else if (op == "diag" || op == "diagr" || op == "trans" || op == "rot3") {
    double x = op == "rot3" ? t.d() : 0; VD v = t.vd(); e.d("th", x).v("v", v); errno = 0;
    if (vk == "fix" && v.size() == 3) m = vop<M>(op, fv<3>(v), x, a, b); else if (vk == "fix" && v.size() == 2) m = vop<M>(op, fv<2>(v), x, a, b); else m = vop<M>(op, dv(v), x, a, b);
  } else if (op == "rot2") { double x = t.d(); e.d("th", x); errno = 0; m = al::rotation_2d<M>(x, a, b); }
  else if (op == "rota") { S c = t.s(); double x = t.d(); e.d("th", x).s("c", c); errno = 0; m = c == "x" ? al::rotation_3d_xaxis<M>(x, a, b) : c == "y" ? al::rotation_3d_yaxis<M>(x, a, b) : al::rotation_3d_zaxis<M>(x, a, b); }
  else if (op == "persp" || op == "ortho") { VD p(6); for (auto& x : p) x = t.d(); e.v("p", p); errno = 0; m = op == "persp" ? al::perspective<M>(p[0], p[1], p[2], p[3], p[4], p[5], a, b) : al::ortho<M>(p[0], p[1], p[2], p[3], p[4], p[5], a, b); }
  else if (op == "fov") { double f = t.d(), as = t.d(); VD p(2); for (auto& x : p) x = t.d(); e.d("fov", f).d("asp", as).v("p", p); errno = 0; m = al::perspective_fov<M>(f, as, p[0], p[1], a, b); }
  else if (op == "sympl") { errno = 0; m = al::symplectic<M>(a, b); }
  else if (op == "hilb") { errno = 0; m = al::hilbert<M>(a); }
  else bad(op);
  e.i("err", errno).m("r", m); out.push_back(e);
}
template<class M, class V> static void look(V c, V g, V u, std::vector<Ev>& out) {
  const V c0 = c;
  Ev e("look"); e.v("cam", c).v("tgt", g).v("up", u); errno = 0; M m = al::look_at<M>(c, g, u); e.i("err", errno).m("r", m); out.push_back(e);
}
template<class V> static void sinv(V p, V c, double r, std::vector<Ev>& out) {
  Ev e("sinv"); e.v("v", p).v("cen", c).d("rad", r); errno = 0; V q = al::sphere_inversion(p, c, r); e.i("err", errno).v("r", q); out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(), kind = t.s(), vk = t.s();
  if (op == "look") {
    VD c = t.vd(), g = t.vd(), u = t.vd();
    if (kind == "fix") { if (vk == "fix") look<mat<real, 4, 4>>(fv<3>(c), fv<3>(g), fv<3>(u), out); else look<mat<real, 4, 4>>(dv(c), dv(g), dv(u), out); }
    else { if (vk == "fix") look<mat<real>>(fv<3>(c), fv<3>(g), fv<3>(u), out); else look<mat<real>>(dv(c), dv(g), dv(u), out); }
    return;
  }
  if (op == "sinv") { VD p = t.vd(), c = t.vd(); double r = t.d(); if (vk == "fix" && p.size() == 3) sinv(fv<3>(p), fv<3>(c), r, out); else if (vk == "fix" && p.size() == 2) sinv(fv<2>(p), fv<2>(c), r, out); else sinv(dv(p), dv(c), r, out); return; }
  int n = t.i(), k = t.i();
  if (kind == "dyn") { go<mat<real>>(op, vk, n, k, n, k, t, out); return; }
#define F(N, K) if (n == N && k == K) { go<mat<real, N, K>>(op, vk, N, K, kind == "fixs" ? N : 0, kind == "fixs" ? K : 0, t, out); return; }
  F(2, 2) F(3, 3) F(4, 4) F(5, 5) F(6, 6) F(2, 3) F(3, 4)
  bad("shape");
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
