#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::real; using th::vec; using th::mat; using th::complex;
namespace al = th::algebra;
typedef std::vector<double> VD;
typedef std::string S;
typedef complex<> Z;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static S one(double x) { return "\"" + vt::hex(x) + "\""; }
static S one(const Z& z) { return "[\"" + vt::hex(z.Re()) + "\",\"" + vt::hex(z.Im()) + "\"]"; }
template<class M> static S ms(const M& A) {
  S r = "[";
  for (unsigned i = 0; i < A.rows(); ++i) { r += i ? ",[" : "["; for (unsigned j = 0; j < A.cols(); ++j) r += (j ? S(",") : S("")) + one(A(i, j)); r += "]"; }
  return r + "]";
}
template<class V> static S vs(const V& v) { S r = "["; for (unsigned i = 0; i < v.size(); ++i) r += (i ? S(",") : S("")) + one(v[i]); return r + "]"; }
static void rd(Tok& t, real& x) { x = t.d(); }
static void rd(Tok& t, Z& z) { double a = t.d(), b = t.d(); z = Z(a, b); }
template<class M> static void fill(M& a, Tok& t) { for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.cols(); ++j) rd(t, a(i, j)); }
template<class V> static void vfill(V& v, Tok& t) { int n = t.i(); v.resize(n); for (int i = 0; i < n; ++i) rd(t, v[i]); }

// square machine: M matrix, V vector
template<class M, class V> static void go(const S& op, const S& f, M a, V b, Tok& t, std::vector<Ev>& out) {
  fill(a, t);
  const M a0 = a;
  Ev e(op); e.s("f", f).raw("a", ms(a));
  bool same = true;
  if (op == "solve" || op == "csolve") {
    vfill(b, t); const V b0 = b; e.raw("b", vs(b)); errno = 0; V x;
    if (f == "solve") x = al::solve(a, b); else if (f == "lu") x = al::solve_lu(a, b); else bad(f);
    e.i("err", errno).raw("x", vs(x)); same = vs(b) == vs(b0);
  }
  else if (op == "inv" || op == "cinv") {
    errno = 0; bool fits = true; M r;
    if (f == "copy") r = al::inverse(a);
    else if (f == "into") { r.resize(a.rows(), a.cols()); al::inverse(r, a); }
    else if (f == "place") { M c = a; al::invert(c); r = c; }
    else if (f == "member") { M c = a; c.invert(); r = c; }
    else bad(f);
    e.i("err", errno).b("fits", fits).raw("r", ms(r));
  } else if (op == "lu" || op == "clu") {
    errno = 0; M l, u;
    if (f == "place") {
      M p = a; al::decompose_lu_inplace(p); int err = errno; l = p; u = p;
      if (!err) for (unsigned i = 0; i < p.rows(); ++i) for (unsigned j = 0; j < p.cols(); ++j) { if (j > i) l(i, j) = 0.0; if (j == i) l(i, j) = 1.0; if (j < i) u(i, j) = 0.0; }
      errno = err;
    } else {
      if (f == "dirty") { l.resize(a.rows(), a.cols()); u.resize(a.rows(), a.cols()); for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.cols(); ++j) { l(i, j) = 7.0; u(i, j) = 9.0; } }
      al::decompose_lu(a, l, u);
    }
    e.i("err", errno).b("fits", true).raw("l", ms(l)).raw("u", ms(u));
  } else if (op == "fac") {
    M u;
    if (f == "lu") { u.resize(a.rows(), a.cols()); fill(u, t); e.raw("u", ms(u)); }
    vfill(b, t); const V b0 = b; e.raw("b", vs(b)); errno = 0; V x;
    if (f == "lu") x = al::solve_lu(a, u, b); else if (f == "packed") { x = b; al::solve_lu_inplace(a, x); } else if (f == "chol") x = al::solve_cholesky(a, b); else bad(f);
    e.i("err", errno).raw("x", vs(x)); same = vs(b) == vs(b0);
  } else bad(op);
  e.b("same", same && ms(a) == ms(a0));
  out.push_back(e);
}
// real only
template<class M, class V> static void go2(const S& op, const S& f, M a, V b, Tok& t, std::vector<Ev>& out) {
  if (op != "det" && op != "chol" && op != "tri" && op != "eig" && op != "ray") { go(op, f, a, b, t, out); return; }
  fill(a, t);
  const M a0 = a;
  Ev e(op); e.s("f", f).raw("a", ms(a));
  bool same = true;
  if (op == "det") { errno = 0; real r = al::det(a); e.i("err", errno).d("r", r); }
  else if (op == "chol") {
    errno = 0; M l;
    if (f == "place") { l = a; al::decompose_cholesky_inplace(l); } else l = al::decompose_cholesky(a);
    e.i("err", errno).raw("l", ms(l));
  } else if (op == "tri") {
    vfill(b, t); const V b0 = b; e.raw("b", vs(b)); errno = 0; V x;
    if (f == "lower") x = al::solve_triangular_lower(a, b); else if (f == "upper") x = al::solve_triangular_upper(a, b); else x = al::solve_triangular(a, b);
    e.i("err", errno).raw("x", vs(x)); same = vs(b) == vs(b0);
  } else if (op == "ray") {
    vfill(b, t); e.raw("x", vs(b)); errno = 0; real r = al::rayleigh_quotient(a, b); e.i("err", errno).d("r", r);
  } else {
    vfill(b, t); S must = t.s(); double want = t.d(), lam = t.d(); const V b0 = b; e.raw("x", vs(b)).s("must", must).d("want", want); V v = b; errno = 0; real r = 0;
    if (f == "pow") r = al::eigenvalue_power(a, b); else if (f == "powp") r = al::eigenpair_power(a, b, v);
    else if (f == "inv") r = al::eigenvalue_inverse(a, b); else if (f == "invp") r = al::eigenpair_inverse(a, b, v);
    else if (f == "ray") r = al::eigenvalue_rayleigh(a, lam, b); else if (f == "rayp") r = al::eigenpair_rayleigh(a, lam, b, v);
    else if (f == "rayt") r = al::eigenvalue_rayleigh(a, lam, b, 0.01); else if (f == "raypt") r = al::eigenpair_rayleigh(a, lam, b, v, 0.01);
    else if (f == "vec") v = al::eigenvector_inverse(a, lam, b); else bad(f);
    e.i("err", errno).d("r", r).raw("v", vs(v)); same = vs(b) == vs(b0);
  }
  e.b("same", same && ms(a) == ms(a0));
  out.push_back(e);
}
template<class M> static void cd(M a, Tok& t, std::vector<Ev>& out) {
  fill(a, t); const M a0 = a; Ev e("cdet"); e.raw("a", ms(a)); errno = 0; Z r = al::det(a); e.i("err", errno).raw("r", one(r)).b("same", ms(a) == ms(a0)); out.push_back(e);
}
// operations between matrices of different shapes or kinds
static void misc(const S& f, Tok& t, std::vector<Ev>& out) {
  Ev e("inv"); e.s("f", f); mat<real> d; int n = t.i();
  if (f == "shape") { int k = t.i(); mat<real> a(n, n); fill(a, t); d.resize(k, n + (k == n)); e.raw("a", ms(a)); errno = 0; al::inverse(d, a); e.i("err", errno).b("fits", false).raw("r", ms(d)); }
  else if (f == "dynfix") { mat<real, 3, 3> a; fill(a, t); d.resize(3, 3); e.raw("a", ms(a)); errno = 0; al::inverse(d, a); e.i("err", errno).b("fits", true).raw("r", ms(d)); }
  else if (f == "fixdyn") { mat<real> a(3, 3); fill(a, t); mat<real, 3, 3> q; e.raw("a", ms(a)); errno = 0; al::inverse(q, a); e.i("err", errno).b("fits", true).raw("r", ms(q)); }
  else bad(f);
  e.b("same", true); out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(), f = t.s();
  if (op == "misc") { misc(f, t, out); return; }
  S kind = t.s(); int n = t.i(), k = t.i();
  bool c = op[0] == 'c' && op != "chol";
  if (c) {
    if (kind == "dyn") { if (op == "cdet") cd(mat<Z>(n, k), t, out); else go(op, f, mat<Z>(n, k), vec<Z>(), t, out); }
    else if (n == 2 && k == 2) { if (op == "cdet") cd(mat<Z, 2, 2>(), t, out); else go(op, f, mat<Z, 2, 2>(), vec<Z, 2>(), t, out); }
    else { if (op == "cdet") cd(mat<Z, 3, 3>(), t, out); else go(op, f, mat<Z, 3, 3>(), vec<Z, 3>(), t, out); }
    return;
  }
  if (kind == "dyn") { go2(op, f, mat<real>(n, k), vec<real>(), t, out); return; }
#define F(N) if (n == N && k == N) { go2(op, f, mat<real, N, N>(), vec<real, N>(), t, out); return; }
  F(1) F(2) F(3) F(4)
  bad("shape");
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
