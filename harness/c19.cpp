#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static VD P; static real lo, hi; static long cnt;
static void seen(real x) { if (!cnt || x < lo) lo = x; if (!cnt || x > hi) hi = x; cnt++; }
static real f(real x) { seen(x); long double y = 0; for (size_t i = P.size(); i-- > 0;) y = y * x + P[i]; return (real) y; }
static real eA, ek;
static real fe(real x) { seen(x); return (real) (eA * std::exp((long double) -ek * x)); }
static real winv(real x) { return 1 + x * x; }
static VD table(const S& fam, int n) {
  namespace tb = th::tables;
#define T(F, N) if (fam == #F && n == N) return VD(tb::F##_roots_##N, tb::F##_roots_##N + N);
  T(legendre, 2) T(legendre, 4) T(legendre, 8) T(legendre, 16) T(laguerre, 2) T(laguerre, 4) T(laguerre, 8) T(laguerre, 16) T(hermite, 2) T(hermite, 4) T(hermite, 8) T(hermite, 16)
  bad("table");
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(); cnt = 0; lo = hi = 0;
  if (op == "quad") {
    S r = t.s(); unsigned n = t.i(); real a = t.d(), b = t.d(); P = t.vd(); real tol = t.d(); S tt = t.s();
    S name = r; real y; VD x; errno = 0;
    if (r == "mid") y = th::integral_midpoint(f, a, b, n);
    else if (r == "trap") y = th::integral_trapezoid(f, a, b, n);
    else if (r == "simp") y = th::integral_simpson(f, a, b, n);
    else if (r == "midd") { name = "mid"; y = th::integral_midpoint(f, a, b); n = th::CALCULUS_INTEGRAL_STEPS; }
    else if (r == "romb") y = th::integral_romberg(f, a, b, n);
    else if (r == "rtol") y = th::integral_romberg_tol(f, a, b, tol);
    else if (r == "int") { name = "rtol"; y = th::integral(f, a, b); tol = th::CALCULUS_INTEGRAL_TOL; }
    else if (r == "intt") { name = "rtol"; y = th::integral(f, a, b, tol); }
    else if (r == "leg") y = th::integral_legendre(f, a, b, n);
    else if (r == "legd") { name = "leg"; y = th::integral_legendre(f, a, b); }
    else if (r == "legx") { name = "leg"; x = th::legendre_roots(n); errno = 0; y = th::integral_legendre(f, a, b, x); }
    else if (r == "legxw") { name = "leg"; x = th::legendre_roots(n); errno = 0; y = th::integral_legendre(f, a, b, x, th::legendre_weights(x)); }
    else if (r == "lag") y = n == 16 && P.size() % 2 ? th::integral_laguerre(f) : th::integral_laguerre(f, n);
    else if (r == "lagx") { name = "lag"; x = table("laguerre", n); y = th::integral_laguerre(f, x); }
    else if (r == "lagab") { x = table("laguerre", n); y = th::integral_laguerre(f, a, b, x); }
    else if (r == "her") y = n == 16 && P.size() % 2 ? th::integral_hermite(f) : th::integral_hermite(f, n);
    else if (r == "herx") { name = "her"; x = table("hermite", n); y = th::integral_hermite(f, x); }
    else bad(r);
    Ev e("quad"); e.s("f", name).i("n", n).d("a", a).d("b", b).v("p", P).d("tol", tol).s("t", tt).i("err", errno).d("r", y).d("lo", lo).d("hi", hi).i("cnt", cnt); out.push_back(e);
  } else if (op == "noorder") { S r = t.s(); unsigned n = t.i(); P = {1.0}; errno = 0; real y = r == "lag" ? th::integral_laguerre(f, n) : th::integral_hermite(f, n); Ev e(op); e.i("err", errno).d("r", y); out.push_back(e); }
  else if (op == "gaussbad") { VD x = t.vd(), w = t.vd(); P = {1.0}; errno = 0; real y = th::integral_gauss(f, x, w); Ev e(op); e.i("err", errno).d("r", y); out.push_back(e); }
  else if (op == "gauss") { S how = t.s(); VD x = t.vd(), w = t.vd(); P = t.vd(); Ev e(op); e.v("x", x).v("w", w).v("p", P).b("winv", how == "winv"); errno = 0; real y = how == "vec" ? th::integral_gauss(f, x, w) : how == "ptr" ? th::integral_gauss(f, x.data(), w.data(), x.size()) : th::integral_gauss(f, x.data(), w.data(), x.size(), winv); e.i("err", errno).d("r", y); out.push_back(e); }
  else if (op == "inf") { eA = t.d(); ek = t.d(); real a = t.d(), h = t.d(), tol = t.d(); unsigned m = t.i(); Ev e(op); e.d("A", eA).d("k", ek).d("a", a).d("h", h).d("tol", tol).i("max", m); errno = 0; real y = th::integral_inf_riemann(fe, a, h, tol, m); e.i("err", errno).d("r", y).d("lo", lo).d("hi", hi); out.push_back(e); }
  else if (op == "infconst") { real A = t.d(); Ev e(op); e.d("A", A); P = {A}; real a = t.d(), h = t.d(); unsigned m = t.i(); errno = 0; real y = th::integral_inf_riemann(f, a, h, 1e-8, m); e.i("err", errno).d("r", y); out.push_back(e); }
  else bad(op);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
