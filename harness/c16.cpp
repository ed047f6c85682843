#include "theoretica.h"
#include "vt.h"
#include <memory>
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::dual; using th::dual2; using th::multidual;
typedef std::string S;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static S js(const dual& x) { return "{\"a\":\"" + hex(x.Re()) + "\",\"b\":[\"" + hex(x.Dual()) + "\"],\"c\":[]}"; }
static S js(const dual2& x) { return "{\"a\":\"" + hex(x.Re()) + "\",\"b\":[\"" + hex(x.Dual1()) + "\"],\"c\":[\"" + hex(x.Dual2()) + "\"]}"; }
template<unsigned int N> static S js(const multidual<N>& x) { return "{\"a\":\"" + hex(x.Re()) + "\",\"b\":" + Ev::arr(x.Dual(), x.Dual().size()) + ",\"c\":[]}"; }
template<class T> struct Mk;
template<> struct Mk<dual> { static dual get(const std::vector<double>& v) { return dual(v[0], v[1]); } };
template<> struct Mk<dual2> { static dual2 get(const std::vector<double>& v) { return dual2(v[0], v[1], v[2]); } };
template<unsigned int N> struct Mk<multidual<N>> { static multidual<N> get(const std::vector<double>& v) { th::vec<real, N> w; w.resize(v.size() - 1); for (size_t i = 1; i < v.size(); ++i) w[i - 1] = v[i]; return multidual<N>(v[0], w); } };
template<class T> static T hyp(const S& f, const T& x) { return f == "sinh" ? th::sinh(x) : f == "cosh" ? th::cosh(x) : f == "tanh" ? th::tanh(x) : (bad(f), x); }
static dual2 hyp(const S& f, const dual2& x) { bad(f); }
// the same number by way of the other representations
template<class T> static T route(int, const T& x) { return +x; }
static dual route(int n, const dual& x) {
  if (n == 1) return dual(x.to_vec());
  if (n == 2) { dual y(7, 8); y.from_vec(x.to_vec()); return y; }
  if (n == 3) { dual y(7, 8); y = x.to_vec(); return y; }
  if (n == 4) { dual y(7, 8); y = std::array<real, 2>{{x.Re(), x.Dual()}}; return y; }
  if (n == 5) { dual y(7, 8); Re(y) = Re(x); Dual(y) = Dual(x); return y; }
  if (n == 6) { dual y(7, 8); y.Re() = x.Re(); y.Dual() = x.Dual(); return y; }
  if (n == 7) { auto m = x.to_mat(); if (m(1, 0) != 0 || (m(0, 0) == m(0, 0) && m(1, 1) != m(0, 0))) return dual(7e77, 7e77); return dual(m(0, 0), m(0, 1)); }
  return +x;
}
static dual2 route(int n, const dual2& x) {
  if (n == 1) return dual2(x.to_vec());
  if (n == 2) { dual2 y(7, 8, 9); y.from_vec(x.to_vec()); return y; }
  if (n == 3) { dual2 y(7, 8, 9); y = x.to_vec(); return y; }
  if (n == 4) { dual2 y(7, 8, 9); y = std::array<real, 3>{{x.Re(), x.Dual1(), x.Dual2()}}; return y; }
  return +x;
}
struct Any { virtual void run(const S& op, Tok& t, std::vector<Ev>& out) = 0; virtual ~Any() {} };
template<class T> struct M : Any {
  std::vector<T> r;
  S regs() { S o = "["; for (size_t i = 0; i < r.size(); ++i) { if (i) o += ","; o += js(r[i]); } return o + "]"; }
  static T un(const S& f, int n, const T& x) {
    if (f == "neg") return -x;
    if (f == "id") return route(n, x);
    if (f == "conj") return n ? x.conjugate() : th::conjugate(x);
    if (f == "inverse") return x.inverse();
    if (f == "square") return th::square(x);
    if (f == "cube") return th::cube(x);
    if (f == "pow") return th::pow(x, n);
    if (f == "sqrt") return th::sqrt(x);
    if (f == "sin") return th::sin(x);
    if (f == "cos") return th::cos(x);
    if (f == "tan") return th::tan(x);
    if (f == "cot") return th::cot(x);
    if (f == "exp") return th::exp(x);
    if (f == "ln") return th::ln(x);
    if (f == "log2") return th::log2(x);
    if (f == "log10") return th::log10(x);
    if (f == "abs") return th::abs(x);
    if (f == "asin") return th::asin(x);
    if (f == "acos") return th::acos(x);
    if (f == "atan") return th::atan(x);
    return hyp(f, x);
  }
  void run(const S& op, Tok& t, std::vector<Ev>& out) override {
    Ev e(op == "asg" ? "bin" : op == "asgr" ? "binr" : op);
    if (op == "init") {
      int n = t.i(); S vals = "["; r.clear();
      for (int i = 0; i < n; ++i) { std::vector<double> v = t.vd(); r.push_back(Mk<T>::get(v)); if (i) vals += ","; 
        bool d2 = std::is_same<T, dual2>::value;
        vals += "{\"a\":\"" + hex(v[0]) + "\",\"b\":["; for (size_t j = 1; j < (d2 ? 2 : v.size()); ++j) vals += (j > 1 ? ",\"" : "\"") + hex(v[j]) + "\""; vals += d2 ? "],\"c\":[\"" + hex(v[2]) + "\"]}" : S("],\"c\":[]}"); }
      e.raw("vals", vals + "]").raw("regs", regs()); out.push_back(e); return;
    }
    if (op == "bin") { S f = t.s(); int i = t.i(), j = t.i(), k = t.i(); e.s("f", f).i("i", i).i("j", j).i("k", k); errno = 0; const T& x = r[i - 1]; const T& y = r[j - 1]; T z = f == "+" ? x + y : f == "-" ? x - y : f == "*" ? x * y : x / y; e.i("err", errno); r[k - 1] = z; }
    else if (op == "asg") { S f = t.s(); int i = t.i(), j = t.i(); e.s("f", f).i("i", i).i("j", j).i("k", i); errno = 0; T& x = r[i - 1]; const T& y = r[j - 1]; T& z = f == "+" ? x += y : f == "-" ? x -= y : f == "*" ? x *= y : x /= y; e.i("err", errno); if (&z != &x) bad("reference"); }
    else if (op == "binr") { S f = t.s(); int i = t.i(); real q = t.d(); int k = t.i(); e.s("f", f).i("i", i).d("x", q).i("k", k); errno = 0; const T& x = r[i - 1]; T z = f == "+" ? x + q : f == "-" ? x - q : f == "*" ? x * q : x / q; e.i("err", errno); r[k - 1] = z; }
    else if (op == "rbin") { S f = t.s(); real q = t.d(); int i = t.i(), k = t.i(); e.s("f", f).i("i", i).d("x", q).i("k", k); errno = 0; const T& x = r[i - 1]; T z = f == "+" ? q + x : f == "-" ? q - x : f == "*" ? q * x : q / x; e.i("err", errno); r[k - 1] = z; }
    else if (op == "asgr") { S f = t.s(); int i = t.i(); real q = t.d(); e.s("f", f).i("i", i).d("x", q).i("k", i); errno = 0; T& x = r[i - 1]; T& z = f == "+" ? x += q : f == "-" ? x -= q : f == "*" ? x *= q : x /= q; e.i("err", errno); if (&z != &x) bad("reference"); }
    else if (op == "un") { S f = t.s(); int n = t.i(), i = t.i(), k = t.i(); e.s("f", f).i("n", n).i("i", i).i("k", k); errno = 0; T z = un(f, n, r[i - 1]); e.i("err", errno); r[k - 1] = z; }
    else if (op == "asgn") { int k = t.i(); real q = t.d(); e.i("k", k).d("x", q); errno = 0; r[k - 1] = q; e.i("err", errno); }
    else if (op == "eq") { int i = t.i(), j = t.i(); e.i("i", i).i("j", j).i("k", i).b("eq", r[i - 1] == r[j - 1]); }
    else bad(op);
    e.raw("regs", regs());
    out.push_back(e);
  }
};
static std::unique_ptr<Any> cur;
static void reset() { cur.reset(); }
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s();
  if (op == "init") { S k = t.s(); if (k == "dual") cur.reset(new M<dual>()); else if (k == "dual2") cur.reset(new M<dual2>()); else if (k == "m1") cur.reset(new M<multidual<1>>()); else if (k == "m2") cur.reset(new M<multidual<2>>()); else if (k == "m3") cur.reset(new M<multidual<3>>()); else if (k == "mdyn") cur.reset(new M<multidual<0>>()); else bad(k); }
  if (!cur) bad("init");
  cur->run(op, t, out);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
