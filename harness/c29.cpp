// Calls of the elementary real functions.
#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using namespace th;
typedef std::string S;
#ifdef THEORETICA_X86
static const bool port = false;
#else
static const bool port = true;
#endif
#ifdef THEORETICA_BRANCHLESS
static const bool br = true;
#else
static const bool br = false;
#endif
static double call(const S& f, double x, double y, double z, int n) {
#define F(g) if (f == #g) return th::g(x);
  F(sqrt) F(cbrt) F(exp) F(expm1) F(ln) F(log2) F(log10) F(sin) F(cos) F(tan) F(cot) F(atan) F(asin) F(acos) F(sinh) F(cosh) F(tanh) F(coth) F(asinh) F(acosh) F(atanh)
  F(sigmoid) F(sinc) F(heaviside) F(abs) F(sgn) F(floor) F(fract) F(square) F(cube) F(radians) F(degrees)
  if (f == "root") return th::root(x, n);
  if (f == "pow") return th::pow(x, n);
  if (f == "ipow") return th::ipow(x, (unsigned) n);
  if (f == "powf") return th::powf(x, y);
  if (f == "atan2") return th::atan2(x, y);
  if (f == "max") return th::max(x, y);
  if (f == "min") return th::min(x, y);
  if (f == "clamp") return th::clamp(x, y, z);
  fprintf(stderr, "bad %s\n", f.c_str()); _exit(77);
}
static double constant(const S& c) {
#define K(g) if (c == #g) return th::g;
  K(PHI) K(INVPHI) K(PI) K(PI2) K(PI4) K(PIDOUBLE) K(TAU) K(INVPI) K(SQRTPI) K(E) K(LOG2E) K(LOG210) K(LOG10E) K(LN2) K(LN10) K(DEG2RAD) K(RAD2DEG) K(SQRT2) K(INVSQR2) K(SQRT3)
  fprintf(stderr, "bad %s\n", c.c_str()); _exit(77);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S f = t.s();
  if (f == "const") { S c = t.s(); Ev e("const"); e.s("f", c).d("r", constant(c)); out.push_back(e); return; }
  // f x [y [z]] | n : the integer argument comes last, after a bar
  std::vector<double> a; int n = 0;
  while (t.more()) { if (t.t[t.p] == "|") { t.s(); n = t.i(); } else a.push_back(t.d()); }
  a.resize(3, 0);
  errno = 0;
  double r = call(f, a[0], a[1], a[2], n);
  int err = errno;
  Ev e("call"); e.s("f", f).d("x", a[0]).d("y", a[1]).d("z", a[2]).i("n", n).b("port", port).b("br", br).d("r", r).i("err", err); out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
