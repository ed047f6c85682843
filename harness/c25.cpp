#include "theoretica.h"
#include "vt.h"
#include <new>
#include <memory>
using vt::Tok; using vt::Ev; using vt::hex;
using namespace th;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
template<class D> static D mk(const VD& x) { D d; d.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) d[i] = x[i]; return d; }
struct Rec {
  S o; bool first = true;
  Rec& put(const char* k, double v, int er) { o += S(first ? "" : ",") + "\"" + k + "\":[\"" + hex(v) + "\"," + std::to_string(er) + "]"; first = false; return *this; }
  template<class F> Rec& operator()(const char* k, F f) { errno = 0; double v = f(); int er = errno; return put(k, v, er); }
  S str() const { return "{" + o + "}"; }
};
template<class F> static S one(F f) { errno = 0; double v = f(); int er = errno; return "[\"" + hex(v) + "\"," + std::to_string(er) + "]"; }
alignas(64) static unsigned char store[sizeof(regression::linear_model)];
static regression::linear_model* M = nullptr;
static void wipe() { memset(store, 0x3f, sizeof store); M = nullptr; }
static void model(Ev& e) { e.d("A", M->A).d("B", M->B).d("sA", M->sigma_A).d("sB", M->sigma_B).d("dev", M->err).d("chi", M->chi_squared).d("p", M->p_value).i("ndf", M->ndf); VD c{M->covar_mat(0, 0), M->covar_mat(0, 1), M->covar_mat(1, 0), M->covar_mat(1, 1)}; e.v("cov", c); }
struct T { double c; std::vector<int> e; };
static std::vector<T> P;
static void poly(Tok& t, Ev& e, size_t n) {
  P.clear(); int k = t.i(); S js = "[";
  while (k--) { T m; m.c = t.d(); for (size_t i = 0; i < n; ++i) m.e.push_back(t.i()); js += S(P.size() ? "," : "") + "{\"c\":\"" + hex(m.c) + "\",\"e\":["; for (size_t i = 0; i < n; ++i) js += (i ? "," : "") + std::to_string(m.e[i]); js += "]}"; P.push_back(m); }
  e.raw("p", js + "]");
}
template<class D, class V> static D pv(const V& x) { D r = x[0] * 0.0; for (auto& m : P) { D q = x[0] * 0.0 + m.c; for (size_t i = 0; i < m.e.size(); ++i) for (int j = 0; j < m.e[i]; ++j) q = q * x[i]; r = r + q; } return r; }
template<unsigned int N> static multidual<N> pf(vec<multidual<N>, N> x) { return pv<multidual<N>>(x); }
static S rows(const std::vector<VD>& m) { S r = "["; for (size_t i = 0; i < m.size(); ++i) r += (i ? "," : "") + Ev::arr(m[i], m[i].size()); return r + "]"; }
template<unsigned int N> static void ep(const VD& x, const std::vector<VD>& c, bool dia, const VD& d, Ev& e) {
  vec<real, N> v = mk<vec<real, N>>(x); mat<real, N, N> m; m.resize(c.size(), c.size()); for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < c.size(); ++j) m(i, j) = c[i][j];
  e.raw("v", one([&] { return stats::error_propagation<N>(pf<N>, v, m); })); if (dia) { vec<real, N> dv = mk<vec<real, N>>(d); e.raw("v2", one([&] { return stats::error_propagation<N>(pf<N>, v, dv); })); }
}
template<unsigned int N> static void eps(const std::vector<VD>& xs, Ev& e) {
  std::vector<vec<real>> a; for (auto& x : xs) a.push_back(mk<vec<real>>(x));
  e.raw("v", one([&] { return stats::error_propagation<N>(pf<N>, a); })); auto c = stats::covar_mat(a); std::vector<VD> m; for (unsigned int i = 0; i < c.rows(); ++i) { VD r; for (unsigned int j = 0; j < c.cols(); ++j) r.push_back(c(i, j)); m.push_back(r); } e.raw("cov", rows(m));
}
template<class D> static void data(const D& x, int c, const std::vector<int>& lags, Ev& e) {
  Rec f; real m2m = 0, m2v = 0; errno = 0; stats::moments2(x, m2m, m2v, c); int er = errno; f.put("m2m", m2m, er).put("m2v", m2v, er);
  f("mean", [&] { return stats::mean(x); })("tss", [&] { return stats::total_sum_squares(x); })("ad", [&] { return stats::absolute_deviation(x); })("var", [&] { return stats::variance(x, c); })("var1", [&] { return stats::variance(x); })("sd", [&] { return stats::stdev(x, c); })("sd1", [&] { return stats::stdev(x); })("stdom", [&] { return stats::stdom(x); });
  if (x.size()) f("range", [&] { return stats::range(x); })("semi", [&] { return stats::semidispersion(x); });
  f("skew", [&] { return stats::skewness(x); })("kurt", [&] { return stats::kurtosis(x); })("sre", [&] { return stats::standard_relative_error(x); });
  VD z; if (x.size() > 1) { D q = stats::normalize_z_score(x); for (size_t i = 0; i < q.size(); ++i) z.push_back(q[i]); }
  S ac = "["; for (size_t i = 0; i < lags.size(); ++i) ac += (i ? "," : "") + one([&] { return lags[i] == 1 ? stats::autocorrelation(x) : stats::autocorrelation(x, lags[i]); });
  e.raw("f", f.str()).v("z", z).iv("lags", lags).raw("ac", ac + "]");
}
template<class D> static void ols(const VD& x0, const VD& y0, double s, Ev& e) {
  D x = mk<D>(x0), y = mk<D>(y0); Rec f; real a = 7, b = 7, sa = 7, sb = 7; mat2 c;
  errno = 0; regression::ols_linear(x, y, a, b); int er = errno; f.put("a0", a, er).put("b0", b, er);
  errno = 0; regression::ols_linear(x, y, s, a, b, sa, sb); er = errno; f.put("a1", a, er).put("b1", b, er).put("sa", sa, er).put("sb", sb, er);
  errno = 0; regression::ols_linear(x, y, s, a, b, c); er = errno; f.put("a2", a, er).put("b2", b, er); VD cv{c(0, 0), c(0, 1), c(1, 0), c(1, 1)};
  errno = 0; regression::ols_linear_orig(x, y, s, b, sb); er = errno; f.put("ob", b, er).put("osb", sb, er);
  f("ia", [&] { return regression::ols_linear_intercept(x, y); })("ib", [&] { return regression::ols_linear_slope(x, y); })("fa", [&] { return regression::ols_linear_sigma_A(x, y, s); })("fb", [&] { return regression::ols_linear_sigma_B(x, y, s); });
  regression::ols_linear(x, y, a, b); f("dev", [&] { return regression::ols_linear_error(x, y, a, b); }); e.raw("f", f.str()).v("cov", cv);
}
template<class D> static void wls(const VD& x0, const VD& y0, const VD& w0, Ev& e) {
  D x = mk<D>(x0), y = mk<D>(y0), w = mk<D>(w0); Rec f; real a = 7, b = 7, sb = 7; mat2 c;
  errno = 0; regression::wls_linear(x, y, w, a, b, c); int er = errno; f.put("a0", a, er).put("b0", b, er); VD cv{c(0, 0), c(0, 1), c(1, 0), c(1, 1)};
  errno = 0; regression::wls_linear_orig(x, y, w, b, sb); er = errno; f.put("ob", b, er).put("osb", sb, er);
  f("ia", [&] { return regression::wls_linear_intercept(x, y, w); })("ib", [&] { return regression::wls_linear_slope(x, y, w); }); e.raw("f", f.str()).v("cov", cv);
}
template<class D> static void fit(const S& how, bool ctor, const VD& x0, const VD& y0, const VD& s, Ev& e) {
  D x = mk<D>(x0), y = mk<D>(y0), w = mk<D>(s); typedef regression::linear_model L; if (!M) M = new (store) L(); int er;
  if (ctor) { wipe(); errno = 0; M = how == "0" ? new (store) L(x, y) : how == "y" ? new (store) L(x, y, s[0]) : how == "xy" ? new (store) L(x, y, s[0], s[1]) : new (store) L(x, y, w); er = errno; }
  else { errno = 0; if (how == "0") M->fit(x, y); else if (how == "y") M->fit(x, y, s[0]); else if (how == "xy") M->fit(x, y, s[0], s[1]); else M->fit(x, y, w); er = errno; }
  e.i("err", er); model(e); if (M->to_string().find("A = ") == S::npos) bad("text");
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(); Ev e(op);
  if (op == "data") { S k = t.s(); int c = t.i(); std::vector<int> lags = t.vi(); VD x = t.vd(); e.v("x", x).i("c", c); if (k == "std") data(x, c, lags, e); else data(mk<vec<real>>(x), c, lags, e); }
  else if (op == "pair") {
    int c = t.i(); VD x = t.vd(), y = t.vd(); auto v = mk<vec<real>>(x); Rec f; f("cov", [&] { return stats::covariance(v, y, c); })("cov1", [&] { return stats::covariance(x, y); })("rho", [&] { return stats::correlation_coefficient(v, y); });
    e.i("c", c).v("x", x).v("y", y).raw("f", f.str());
  } else if (op == "prop") { VD x = t.vd(), y = t.vd(); auto v = mk<vec<real>>(x); Rec f; f("sum", [&] { return stats::propagate_sum(v); })("prod", [&] { return stats::propagate_product(v, y); }); e.v("x", x).v("y", y).raw("f", f.str()); }
  else if (op == "gauss") { VD g = t.vd(); real m = t.d(), s = t.d(); e.v("g", g).d("m", m).d("s", s).raw("v", one([&] { return stats::gaussian_expectation([&](real x) { real r = 0; for (size_t i = g.size(); i-- > 0;) r = r * x + g[i]; return r; }, m, s); })); }
  else if (op == "zs") { real x = t.d(), m = t.d(), s = t.d(); e.d("x", x).d("m", m).d("s", s).d("r", stats::z_score(x, m, s)); }
  else if (op == "chi") { VD x = t.vd(), y = t.vd(), s = t.vd(); auto v = mk<vec<real>>(x); e.v("x", x).v("y", y).v("s", s).raw("v", one([&] { return stats::chi_square(v, y, s); })); }
  else if (op == "chil") { VD x = t.vd(), y = t.vd(), s = t.vd(); real a = t.d(), b = t.d(); auto v = mk<vec<real>>(x); e.v("x", x).v("y", y).v("s", s).d("a", a).d("b", b).raw("v", one([&] { return stats::chi_square_linear(v, y, s, a, b); })).raw("red", one([&] { return stats::reduced_chi_square_linear(v, y, s, a, b); })); }
  else if (op == "pv") { real x = t.d(); int n = t.i(); e.d("x", x).i("n", n).raw("v", one([&] { return stats::pvalue_chi_squared(x, n); })); }
  else if (op == "fresh") { wipe(); M = new (store) regression::linear_model(); model(e); }
  else if (op == "fit") { S k = t.s(), how = t.s(); int c = t.i(); VD x = t.vd(), y = t.vd(), s = t.vd(); e.s("how", how).v("x", x).v("y", y).v("s", s); if (k == "std") fit<VD>(how, c, x, y, s, e); else fit<vec<real>>(how, c, x, y, s, e); }
  else if (op == "val") { if (!M) M = new (store) regression::linear_model(); real x = t.d(); e.d("x", x).d("r", (*M)(x)); }
  else if (op == "ols") { S k = t.s(); VD x = t.vd(), y = t.vd(); real s = t.d(); e.v("x", x).v("y", y).d("s", s); if (k == "std") ols<VD>(x, y, s, e); else ols<vec<real>>(x, y, s, e); }
  else if (op == "wls") { S k = t.s(); VD x = t.vd(), y = t.vd(), w = t.vd(); e.v("x", x).v("y", y).v("w", w); if (k == "std") wls<VD>(x, y, w, e); else wls<vec<real>>(x, y, w, e); }
  else if (op == "ep") {
    S k = t.s(); VD x = t.vd(); size_t n = x.size(); poly(t, e, n); int m = t.i(); std::vector<VD> c; for (int i = 0; i < m; ++i) { VD r; for (int j = 0; j < m; ++j) r.push_back(t.d()); c.push_back(r); } bool dia = t.i(); VD d; if (dia) { d = t.vd(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) c[i][j] = i == j ? d[i] * d[i] : 0; }
    e.v("x", x).raw("cov", rows(c)).b("dia", dia); if (k == "fix" && n == 2 && m == 2) ep<2>(x, c, dia, d, e); else if (k == "fix" && n == 3 && m == 3) ep<3>(x, c, dia, d, e); else ep<0>(x, c, dia, d, e);
  } else if (op == "eps") { S k = t.s(); int n = t.i(); std::vector<VD> xs; for (int i = 0; i < n; ++i) xs.push_back(t.vd()); poly(t, e, n); e.raw("xs", rows(xs)); if (k == "fix" && n == 2) eps<2>(xs, e); else if (k == "fix" && n == 3) eps<3>(xs, e); else eps<0>(xs, e); }
  else if (op == "mc") {
    unsigned int seed = t.i(), N = t.i(); real m = t.d(), s = t.d(); auto f = [](vec<real> v) { return v[0] * v[1] - v[0]; };
    PRNG g1(seed), g2(seed); g1.discard(64); g2.discard(64); std::vector<pdf_sampler> a{pdf_sampler::exponential(s, g1), pdf_sampler::uniform(m, m + 2 * s, g1)}, b{pdf_sampler::exponential(s, g2), pdf_sampler::uniform(m, m + 2 * s, g2)};
    VD x = sample_mc(f, a, N); e.v("x", x).d("r", stats::error_propagation_mc(f, b, N));
  } else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] { wipe(); }); }
