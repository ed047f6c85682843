#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::real;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
template<class T> static VD arr(const T* p, int n) { return VD(p, p + n); }
static void table(const S& fam, int n, VD& x, VD& w) {
  namespace tb = th::tables;
#define T(F, N) if (fam == #F && n == N) { x = arr(tb::F##_roots_##N, sizeof tb::F##_roots_##N / sizeof(real)); w = arr(tb::F##_weights_##N, sizeof tb::F##_weights_##N / sizeof(real)); return; }
  T(legendre, 2) T(legendre, 4) T(legendre, 8) T(legendre, 16) T(laguerre, 2) T(laguerre, 4) T(laguerre, 8) T(laguerre, 16) T(hermite, 2) T(hermite, 4) T(hermite, 8) T(hermite, 16)
  bad("table");
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s();
  Ev e(op == "rule" || op == "table" ? "gauss" : op);
  if (op == "poly") {
    S f = t.s(); int n = t.i(); real al = t.d(); e.s("fam", f).i("n", n).d("al", al); errno = 0;
    th::polynomial<real> r = f == "leg" ? th::legendre_polynomial(n) : f == "lag" ? th::laguerre_polynomial(n) : f == "glag" ? th::general_laguerre_polynomial(al, n) : f == "her" ? th::hermite_polynomial(n) : f == "ch1" ? th::chebyshev1_polynomial(n) : th::chebyshev2_polynomial(n);
    e.i("err", errno).v("r", r.coeff);
  } else if (op == "table") { S f = t.s(); int n = t.i(); VD x, w; table(f, n, x, w); e.s("fam", f.substr(0, 3)).i("n", n).i("err", 0).v("x", x).v("w", w).s("t", "1e-12"); }
  else if (op == "rule") {      // roots given by the tables or computed, weights computed
    S f = t.s(); int n = t.i(); VD x, w; errno = 0; S tol = "1e-12";
    if (f == "legendre") { x = th::legendre_roots(n); w = th::legendre_weights(x); if (n > 8) tol = n > 14 ? "1e-8" : "1e-10"; }
    else { VD v; table(f, n, x, v); errno = 0; w = f == "laguerre" ? th::laguerre_weights(x) : th::hermite_weights(x); if (n == 16) tol = f == "laguerre" ? "1e-6" : "1e-9"; }
    e.s("fam", f.substr(0, 3)).i("n", n).i("err", errno).v("x", x).v("w", w).s("t", tol);
  } else if (op == "assoc") { int l = t.i(), m = t.i(); real x = t.d(); e.i("l", l).i("m", m).d("x", x); errno = 0; real r = th::assoc_legendre_polynomial(l, m)(x); e.i("err", errno).d("r", r); }
  else if (op == "even") { int l = t.i(), m = t.i(); e.i("l", l).i("m", m); errno = 0; auto r = th::assoc_legendre_polynomial_even(l, m); e.i("err", errno).v("r", r.coeff); }
  else if (op == "lnorm" || op == "hnorm") { int n = t.i(); e.i("n", n); errno = 0; real r = op == "lnorm" ? th::legendre_polyn_normalization(n) : th::hermite_polyn_normalization(n); e.i("err", errno).d("r", r); }
  else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
