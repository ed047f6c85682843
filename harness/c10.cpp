#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec; using th::complex;
namespace al = th::algebra;
typedef std::vector<double> VD;
typedef std::string S;
typedef complex<real> C;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
template<class V> static V mk(const VD& v) { V r; r.resize(v.size()); for (unsigned i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
template<class V> static V mkc(const VD& a, const VD& b) { V r; r.resize(a.size()); for (unsigned i = 0; i < a.size(); ++i) r[i] = C(a[i], b[i]); return r; }
template<class V> static S cv(const V& v) { S r = "["; for (unsigned i = 0; i < v.size(); ++i) r += S(i ? "," : "") + "[\"" + hex(v[i].a) + "\",\"" + hex(v[i].b) + "\"]"; return r + "]"; }
static S cs(C z) { return "[\"" + hex(z.a) + "\",\"" + hex(z.b) + "\"]"; }
template<class V> static void norm(const S& k, unsigned p, const V& v, std::vector<Ev>& out) {
  Ev e("norm"); e.s("k", k).i("p", p).v("v", v); errno = 0;
  real r = k == "l1" ? al::l1_norm(v) : k == "l2" ? al::l2_norm(v) : k == "linf" ? al::linf_norm(v) : al::lp_norm(v, p);
  e.i("err", errno).d("r", r); out.push_back(e);
}
template<class V> static void cnorm(const S& k, const V& v, std::vector<Ev>& out) {
  Ev e("cnorm"); e.s("k", k).raw("v", cv(v)); errno = 0;
  real r = k == "l1" ? al::l1_norm(v) : k == "l2" ? al::l2_norm(v) : al::linf_norm(v);
  e.i("err", errno).d("r", r); out.push_back(e);
}
template<class V> struct Fix { template<class W> static real dist(const W& v, const W& w) { return al::euclidean_distance(v, w); } };
template<unsigned N> struct Fix<vec<real, N>> { static real dist(const vec<real, N>& v, const vec<real, N>& w) { return al::distance(v, w); } };
template<class V> static real di(const S& k, unsigned p, double t, const V& v, const V& w) {
  if (k == "euclid") return p == 1 ? Fix<V>::dist(v, w) : al::euclidean_distance(v, w);
  if (k == "mink") return al::minkowski_distance(v, w, p);
  if (k == "manh") return al::manhattan_distance(v, w);
  if (k == "cheb") return al::chebyshev_distance(v, w);
  if (k == "discr") return t == th::MACH_EPSILON ? al::discrete_distance(v, w) : al::discrete_distance(v, w, t);
  if (k == "canb") return al::canberra_distance(v, w);
  if (k == "cos") return al::cosine_distance(v, w);
  if (k == "hamm") return t == th::MACH_EPSILON ? al::hamming_distance(v, w) : al::hamming_distance(v, w, t);
  bad(k);
}
template<class V> static void dist(const S& k, unsigned p, double t, const V& v, const V& w, std::vector<Ev>& out) {
  Ev e("dist"); e.s("k", k).i("p", p).d("t", t).v("v", v).v("w", w); errno = 0; real r = di(k, p, t, v, w); e.i("err", errno).d("r", r).d("r2", di(k, p, t, w, v)); out.push_back(e);
}
template<class V> static void cdist(const S& k, const V& v, const V& w, std::vector<Ev>& out) {
  Ev e("cdist"); e.s("k", k).raw("v", cv(v)).raw("w", cv(w)); errno = 0;
  C r = k == "herm" ? al::hermitian_distance<V, real>(v, w) : C(al::euclidean_distance(v, w)); e.i("err", errno).raw("r", cs(r)); out.push_back(e);
}
template<unsigned N> static void cdistf(const vec<C, N>& v, const vec<C, N>& w, std::vector<Ev>& out) {
  Ev e("cdist"); e.s("k", "herm").raw("v", cv(v)).raw("w", cv(w)); errno = 0; C r = al::distance(v, w); e.i("err", errno).raw("r", cs(r)); out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(), kind = t.s(), k = t.s();
  if (op == "norm") {
    unsigned p = t.i(); VD v = t.vd();
    if (kind == "std") norm(k, p, v, out);
    else if (kind == "fix" && v.size() == 2) norm(k, p, mk<vec<real, 2>>(v), out);
    else if (kind == "fix" && v.size() == 3) norm(k, p, mk<vec<real, 3>>(v), out);
    else norm(k, p, mk<vec<real>>(v), out);
  } else if (op == "cnorm") {
    VD a = t.vd(), b = t.vd();
    if (kind == "fix" && a.size() == 2) cnorm(k, mkc<vec<C, 2>>(a, b), out); else if (kind == "fix" && a.size() == 3) cnorm(k, mkc<vec<C, 3>>(a, b), out); else cnorm(k, mkc<vec<C>>(a, b), out);
  } else if (op == "dist") {
    unsigned p = t.i(); double tol = t.d(); VD v = t.vd(), w = t.vd();
    if (kind == "num") {    // the scalar overloads
      Ev e("dist"); e.s("k", k).i("p", p).d("t", tol).v("v", v).v("w", w); errno = 0; real a = v[0], b = w[0];
      auto f = [&](real x, real y) { return k == "mink" ? al::minkowski_distance(x, y, p) : p == 1 ? al::distance(x, y) : al::euclidean_distance(x, y); };
      real r = f(a, b); e.i("err", errno).d("r", r).d("r2", f(b, a)); out.push_back(e);
    } else if (kind == "fix" && v.size() == 2 && w.size() == 2) dist(k, p, tol, mk<vec<real, 2>>(v), mk<vec<real, 2>>(w), out);
    else if (kind == "fix" && v.size() == 3 && w.size() == 3) dist(k, p, tol, mk<vec<real, 3>>(v), mk<vec<real, 3>>(w), out);
    else if (kind == "fix" && v.size() == 4 && w.size() == 4) dist(k, p, tol, mk<vec<real, 4>>(v), mk<vec<real, 4>>(w), out);
    else dist(k, p, tol, mk<vec<real>>(v), mk<vec<real>>(w), out);
  } else if (op == "cdist") {
    VD a = t.vd(), b = t.vd(), c = t.vd(), d = t.vd();
    if (kind == "num") { Ev e("cdist"); C z(a[0], b[0]), w(c[0], d[0]); e.s("k", "euclid").raw("v", cv(std::vector<C>{z})).raw("w", cv(std::vector<C>{w})); errno = 0; C r = al::distance(z, w); e.i("err", errno).raw("r", cs(r)); out.push_back(e); }
    else if (kind == "fix" && a.size() == 2 && c.size() == 2) { if (k == "herm") cdistf(mkc<vec<C, 2>>(a, b), mkc<vec<C, 2>>(c, d), out); else cdist(k, mkc<vec<C, 2>>(a, b), mkc<vec<C, 2>>(c, d), out); }
    else if (kind == "fix" && a.size() == 3 && c.size() == 3) { if (k == "herm") cdistf(mkc<vec<C, 3>>(a, b), mkc<vec<C, 3>>(c, d), out); else cdist(k, mkc<vec<C, 3>>(a, b), mkc<vec<C, 3>>(c, d), out); }
    else cdist(k, mkc<vec<C>>(a, b), mkc<vec<C>>(c, d), out);
  } else bad(op);
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
