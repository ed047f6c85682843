#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::real;
typedef std::vector<double> VD;

template<class V> static VD plain(const V& v) { VD r; for (unsigned i = 0; i < v.size(); ++i) r.push_back((double) v[i]); return r; }
static bool same(const VD& a, const VD& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }

template<class V> static double reduce(const std::string& f, const V& x, const V& y, const V& z, int b, int e, int base) {
  if (f == "sum") return th::sum(x);
  if (f == "pairwise") return th::sum_pairwise(x);
  if (f == "pairwise_range") return th::sum_pairwise(x, b, e, base);
  if (f == "compensated") return th::sum_compensated(x);
  if (f == "product") return th::product(x);
  if (f == "sum_squares") return th::sum_squares(x);
  if (f == "product_sum") return th::product_sum(x, y);
  if (f == "product_sum3") return th::product_sum(x, y, z);
  if (f == "product_sum_squares") return th::product_sum_squares(x, y);
  if (f == "quotient_sum") return th::quotient_sum(x, y);
  if (f == "max") return th::max(x);
  if (f == "min") return th::min(x);
  if (f == "arithmetic") return th::arithmetic_mean(x);
  if (f == "harmonic") return th::harmonic_mean(x);
  if (f == "weighted") return th::weighted_mean(x, y);
  if (f == "quadratic") return th::quadratic_mean(x);
  if (f == "geometric") return th::geometric_mean(x);
  fprintf(stderr, "bad reduction\n"); _exit(77);
}
static double fsq(double x) { return x * x; }
static double fneg(double x) { return -x; }
static double fid(double x) { return x; }

template<class V> static void go(V x, V y, V z, const std::string& op, const std::string& f, int b, int e, int base, std::vector<Ev>& out) {
  VD X = plain(x), Y = plain(y), Z = plain(z);
  static const char* two[] = {"product_sum", "product_sum3", "product_sum_squares", "quotient_sum", "weighted"};
  bool w = false; for (auto c : two) if (f == c) w = true;
  if (op == "red") {
    double r = reduce(f, x, y, z, b, e, base);
    out.push_back(Ev("red").s("f", f).v("x", X).v("y", w ? Y : VD()).v("z", f == "product_sum3" ? Z : VD()).i("b", b).i("e", e).i("base", base)
      .b("same", same(X, plain(x)) && same(Y, plain(y)) && same(Z, plain(z))).d("r", r));
  } else if (op == "apply") {
    auto fn = f == "square" ? fsq : f == "neg" ? fneg : fid;
    V& q = th::apply(fn, x);
    out.push_back(Ev("apply").s("fn", f).v("x", X).v("r", x));
    if (&q != &x) { fprintf(stderr, "apply returned another object\n"); out.push_back(Ev("apply_ref")); }
  }
}
// operations that need a resizable container
template<class V> static void dyn(V x, V y, const std::string& op, const std::string& f, std::vector<Ev>& out) {
  VD X = plain(x), Y = plain(y);
  auto fn = f == "square" ? fsq : f == "neg" ? fneg : fid;
  if (op == "map") {
    V q = th::map(fn, x);
    out.push_back(Ev("map").s("fn", f).v("x", X).b("same", same(X, plain(x))).v("r", q));
    V d; d.resize(x.size());
    th::map(fn, x, d);
    out.push_back(Ev("map").s("fn", f).v("x", X).b("same", same(X, plain(x))).v("r", d));
    std::vector<long double> w = th::map<std::vector<long double>>(fn, x);
    out.push_back(Ev("map").s("fn", f).v("x", X).b("same", same(X, plain(x))).v("r", w));
  } else {
    V q = th::concatenate(x, y);
    out.push_back(Ev("concat").v("x", X).v("y", Y).b("same", same(X, plain(x)) && same(Y, plain(y))).v("r", q));
  }
}
template<unsigned N> static th::vec<real, N> fix(const VD& v) { th::vec<real, N> r; for (unsigned i = 0; i < N; ++i) r[i] = v[i]; return r; }
static th::vec<real> dynv(const VD& v) { th::vec<real> r; r.resize(v.size()); for (unsigned i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }

static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s(), f = t.s();
  if (f == "const_sum" || f == "const_comp") {
    int n = t.i(); double c = t.d();
    VD x(n, c);
    double r = f == "const_sum" ? th::sum(x) : th::sum_compensated(x);
    out.push_back(Ev("red").s("f", f).i("n", n).d("c", c).b("same", true).d("r", r));
    return;
  }
  std::string c = t.s();
  VD x = t.vd(), y = x, z = x;
  if (op == "red2" || op == "concat") y = t.vd();
  if (op == "red3") { y = t.vd(); z = t.vd(); }
  int b = 0, e = 0, base = 0;
  if (f == "pairwise_range") { b = t.i(); e = t.i(); base = t.i(); }
  if (op == "red2" || op == "red3") op = "red";
  if (op == "map" || op == "concat") { if (c == "std") dyn(x, y, op, f, out); else dyn(dynv(x), dynv(y), op, f, out); return; }
  if (c == "std") go(x, y, z, op, f, b, e, base, out);
  else if (c == "fix") {
    switch (x.size()) {
#define C(N) case N: go(fix<N>(x), fix<N>(y), fix<N>(z), op, f, b, e, base, out); break;
      C(1) C(2) C(3) C(4) C(5) C(7) C(8) C(16)
      default: go(dynv(x), dynv(y), dynv(z), op, f, b, e, base, out);
    }
  } else go(dynv(x), dynv(y), dynv(z), op, f, b, e, base, out);
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
