#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::dual; using th::dual2; using th::multidual; using th::vec; using th::mat;
typedef std::string S;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
struct I { S o, f; int i = 0, n = 0; real x = 0; };
typedef std::vector<I> P;
static S js(const P& p) {
  S r = "[";
  for (size_t k = 0; k < p.size(); ++k) { const I& t = p[k]; if (k) r += ","; r += "{\"o\":\"" + t.o + "\",\"f\":\"" + t.f + "\",\"i\":" + std::to_string(t.i) + ",\"n\":" + std::to_string(t.n) + ",\"x\":\"" + hex(t.x) + "\"}"; }
  return r + "]";
}
static P prog(Tok& t) {
  int n = t.i(); P p;
  while (n--) { I k; k.o = t.s(); if (k.o == "v") k.i = t.i(); else if (k.o == "c") k.x = t.d(); else if (k.o == "b") k.f = t.s(); else if (k.o == "k" || k.o == "r") { k.f = t.s(); k.x = t.d(); } else if (k.o == "u") { k.f = t.s(); k.n = t.i(); } else bad(k.o); p.push_back(k); }
  return p;
}
template<class T> static T hyp(const S& f, const T& x) { return f == "sinh" ? th::sinh(x) : f == "cosh" ? th::cosh(x) : f == "tanh" ? th::tanh(x) : (bad(f), x); }
static dual2 hyp(const S& f, const dual2& x) { bad(f); }
template<class T> static T un(const S& f, int n, const T& x) {
  if (f == "neg") return -x;
  if (f == "square") return th::square(x);
  if (f == "cube") return th::cube(x);
  if (f == "pow") return th::pow(x, n);
  if (f == "inverse") return x.inverse();
  if (f == "sqrt") return th::sqrt(x);
  if (f == "sin") return th::sin(x);
  if (f == "cos") return th::cos(x);
  if (f == "tan") return th::tan(x);
  if (f == "exp") return th::exp(x);
  if (f == "ln") return th::ln(x);
  if (f == "atan") return th::atan(x);
  return hyp(f, x);
}
template<class T, class V> static T eval(const P& p, const V& x) {
  std::vector<T> st;
  for (auto& t : p) {
    if (t.o == "v") st.push_back(x[t.i - 1]);
    else if (t.o == "c") st.push_back(T(t.x));
    else if (t.o == "b") { T b = st.back(); st.pop_back(); T& a = st.back(); if (p.size() % 2) a = t.f == "+" ? a + b : t.f == "-" ? a - b : t.f == "*" ? a * b : a / b; else if (t.f == "+") a += b; else if (t.f == "-") a -= b; else if (t.f == "*") a *= b; else a /= b; }
    else if (t.o == "k") { T& a = st.back(); a = t.f == "+" ? a + t.x : t.f == "-" ? a - t.x : t.f == "*" ? a * t.x : a / t.x; }
    else if (t.o == "r") { T& a = st.back(); a = t.f == "+" ? t.x + a : t.f == "-" ? t.x - a : t.f == "*" ? t.x * a : t.x / a; }
    else st.back() = un(t.f, t.n, st.back());
  }
  return st.back();
}
static std::vector<P> G;      // the programs of the field under test
template<unsigned int N> static multidual<N> sf(vec<multidual<N>, N> x) { return eval<multidual<N>>(G[0], x); }
template<unsigned int N> static multidual<N> sh(vec<multidual<N>, N> x) { return eval<multidual<N>>(G[1], x); }
template<unsigned int N, unsigned int M> static vec<multidual<N>, M> vf(vec<multidual<N>, N> x) { vec<multidual<N>, M> r; r.resize(G.size()); for (size_t i = 0; i < G.size(); ++i) r[i] = eval<multidual<N>>(G[i], x); return r; }
template<unsigned int N> static dual2 lf(vec<dual2, N> x) { return eval<dual2>(G[0], x); }
static dual d1(dual x) { std::vector<dual> v{x}; return eval<dual>(G[0], v); }
static dual2 d2(dual2 x) { std::vector<dual2> v{x}; return eval<dual2>(G[0], v); }
template<class M> static S ms(const M& m) { S r = "["; for (unsigned int i = 0; i < m.rows(); ++i) { r += i ? ",[" : "["; for (unsigned int j = 0; j < m.cols(); ++j) r += (j ? ",\"" : "\"") + hex(m.get(i, j)) + "\""; r += "]"; } return r + "]"; }
template<unsigned int N> static vec<real, N> mk(const std::vector<double>& x) { vec<real, N> v; v.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
template<unsigned int N> static void go(const S& op, Tok& t, Ev& e) {
  using namespace th;
  std::vector<double> xs = t.vd(); e.v("x", xs); vec<real, N> x = mk<N>(xs);
  int np = t.i(); G.clear(); while (np--) G.push_back(prog(t));
  S ps = "["; for (size_t i = 0; i < G.size(); ++i) { if (i) ps += ","; ps += js(G[i]); } ps += "]";
  if (G.size()) e.raw("p", js(G[0]));
  if (G.size() > 1) e.raw("h", js(G[1]));
  e.raw("ps", ps);
  errno = 0;
  if (op == "grad") { auto r = autodiff::gradient(sf<N>, x); int er = errno; auto r2 = autodiff::gradient(sf<N>)(x); e.i("err", er).v("r", r).v("r2", r2); }
  else if (op == "div") { auto r = autodiff::divergence(sf<N>, x); int er = errno; auto r2 = autodiff::divergence(sf<N>)(x); e.i("err", er).d("r", r).d("r2", r2); }
  else if (op == "jac") { auto r = autodiff::jacobian<N, N>(vf<N, N>, x); int er = errno; auto r2 = autodiff::jacobian<N, N>(vf<N, N>)(x); e.i("err", er).raw("r", ms(r)).raw("r2", ms(r2)); }
  else if (op == "curl") { auto r = autodiff::curl<N>(vf<N, N>, x); int er = errno; auto r2 = autodiff::curl<N>(vf<N, N>)(x); e.i("err", er).v("r", r).v("r2", r2); }
  else if (op == "dir") { std::vector<double> w = t.vd(); e.v("v", w); vec<real, N> v = mk<N>(w); auto r = autodiff::directional_derivative<N>(sf<N>, x, v); int er = errno; auto r2 = autodiff::directional_derivative<N>(sf<N>, v)(x); e.i("err", er).v("r", r).v("r2", r2); }
  else if (op == "lap") { auto r = autodiff::laplacian<N>(lf<N>, x); int er = errno; auto r2 = autodiff::laplacian<N>(lf<N>)(x); e.i("err", er).d("r", r).d("r2", r2); }
  else if (op == "bracket") { auto r = autodiff::sturm_liouville<N>(sf<N>, sh<N>, x); e.i("err", errno).d("r", r); }
  else if (op == "arg") {
    auto a = multidual<N>::make_argument(x); auto b = autodiff::make_autodiff_arg<multidual<N>>(x);
    std::vector<double> re; S du = "["; for (size_t i = 0; i < a.size(); ++i) { re.push_back(b[i].Re()); if (i) du += ","; du += Ev::arr(b[i].Dual(), b[i].Dual().size()); }
    auto er = multidual<N>::extract_real(a); auto ed = multidual<N>::extract_dual(a);
    vec<real, N> x2; x2.resize(xs.size()); mat<real, N, N> J; J.resize(xs.size(), xs.size()); multidual<N>::extract(a, x2, J);
    bool same = true; for (size_t i = 0; i < xs.size(); ++i) same = same && x2[i] == er[i];
    e.i("err", same ? errno : 1).v("re", re).raw("du", du + "]").v("ex", er).raw("ed", ms(ed)).raw("ej", ms(J));
  }
  else bad(op);
}
// M components of N variables
template<unsigned int N, unsigned int M> static void jac(Tok& t, Ev& e) {
  std::vector<double> xs = t.vd(); e.v("x", xs); vec<real, N> x = mk<N>(xs);
  int np = t.i(); G.clear(); while (np--) G.push_back(prog(t));
  S ps = "["; for (size_t i = 0; i < G.size(); ++i) { if (i) ps += ","; ps += js(G[i]); } e.raw("ps", ps + "]");
  errno = 0; auto r = th::autodiff::jacobian<N, M>(vf<N, M>, x); int er = errno; auto r2 = th::autodiff::jacobian<N, M>(vf<N, M>)(x); e.i("err", er).raw("r", ms(r)).raw("r2", ms(r2));
}
static void run(Tok& t, std::vector<Ev>& out) {
  using namespace th;
  S op = t.s(); Ev e(op == "jacmn" ? "jac" : op);
  if (op == "deriv" || op == "deriv2" || op == "tay1" || op == "tay2") {
    real x = t.d(); G.clear(); G.push_back(prog(t)); std::vector<double> xs{x}; e.v("x", xs).raw("p", js(G[0])); errno = 0;
    if (op == "deriv") { real r = autodiff::deriv(d1, x); int er = errno; e.i("err", er).d("r", r).d("r2", autodiff::deriv(d1)(x)); }
    else if (op == "deriv2") { real r = autodiff::deriv2(d2, x); int er = errno; e.i("err", er).d("r", r).d("r2", autodiff::deriv2(d2)(x)); }
    else { polynomial<real> p = op == "tay1" ? taylor::expand_linear(d1, x) : taylor::expand_quadratic(d2, x); e.i("err", errno).v("r", p.coeff); }
  } else if (op == "jacmn") { S k = t.s(); if (k == "23") jac<2, 3>(t, e); else if (k == "32") jac<3, 2>(t, e); else if (k == "41") jac<4, 1>(t, e); else if (k == "dyn") jac<0, 0>(t, e); else bad(k); }
  else { S k = t.s(); if (k == "1") go<1>(op, t, e); else if (k == "2") go<2>(op, t, e); else if (k == "3") go<3>(op, t, e); else if (k == "4") go<4>(op, t, e); else if (k == "dyn") go<0>(op, t, e); else bad(k); }
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
