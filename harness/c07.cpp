#include "theoretica.h"
#include "vt.h"
#include <type_traits>
using vt::Tok; using vt::Ev;
using th::real; using th::vec; using th::mat; using th::complex;
namespace al = th::algebra;
typedef std::vector<double> VD;
typedef std::string S;
struct Mach { virtual void run(const S& op, Tok& t, std::vector<Ev>& out) = 0; virtual ~Mach() {} };
template<class M> static S ms(const M& A) {
  S r = "[";
  for (unsigned i = 0; i < A.rows(); ++i) { r += i ? ",[" : "["; for (unsigned j = 0; j < A.cols(); ++j) r += (j ? ",\"" : "\"") + vt::hex(A(i, j)) + "\""; r += "]"; }
  return r + "]";
}
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
template<class M> struct isfix { static const int v = 1; };
template<> struct isfix<mat<real>> { static const int v = 0; };
template<> struct isfix<vec<real>> { static const int v = 0; };
// number of the fixed rows of the target when its shape cannot change, else 0
template<class M> static int tn(const M& m) { return isfix<M>::v ? (int) m.rows() : 0; }
static int tv(const vec<real>&) { return 0; }
template<unsigned N> static int tv(const vec<real, N>&) { return N; }
template<class M> static void dynop(M&, int, int) { bad("resize of a fixed matrix"); }
static void dynop(mat<real>& m, int n, int k) { m.resize(n, k); }
static void rowsop(mat<real>& m, const std::vector<VD>& l) {
  typedef std::initializer_list<real> I;
  if (l.size() == 1) { if (l[0].size() == 2) m = mat<real>({I{l[0][0], l[0][1]}}); else m = mat<real>({I{l[0][0], l[0][1], l[0][2]}}); }
  else if (l[0].size() == 2) { if (l[1].size() == 2) m = mat<real>({I{l[0][0], l[0][1]}, I{l[1][0], l[1][1]}}); else m = mat<real>({I{l[0][0], l[0][1]}, I{l[1][0], l[1][1], l[1][2]}}); }
  else m = mat<real>({I{l[0][0], l[0][1], l[0][2]}, I{l[1][0], l[1][1], l[1][2]}});
}
template<unsigned N, unsigned K> static void rowsop(mat<real, N, K>& m, const std::vector<VD>& l) {
  typedef std::initializer_list<real> I;
  if (l.size() == 1) { if (l[0].size() == 2) m = mat<real, N, K>({I{l[0][0], l[0][1]}}); else m = mat<real, N, K>({I{l[0][0], l[0][1], l[0][2]}}); }
  else if (l[0].size() == 2) { if (l[1].size() == 2) m = mat<real, N, K>({I{l[0][0], l[0][1]}, I{l[1][0], l[1][1]}}); else m = mat<real, N, K>({I{l[0][0], l[0][1]}, I{l[1][0], l[1][1], l[1][2]}}); }
  else m = mat<real, N, K>({I{l[0][0], l[0][1], l[0][2]}, I{l[1][0], l[1][1], l[1][2]}});
}
static mat<real> dg(const mat<real>&, double x, int n, int k, int) { return mat<real>(x, n, k); }
template<unsigned N, unsigned K> static mat<real, N, K> dg(const mat<real, N, K>&, double x, int n, int k, int h) { if (h) return mat<real, N, K>(x); return mat<real, N, K>(x, n, k); }
template<class M> static void itr(M& m) { if (m.rows() > 1) m.transpose(); else al::make_transposed(m); }

// A: n x k, B: k x n, C: n x n, D: k x k (all one type in the run-time machine)
template<class A, class B, class C, class D, class X, class Y> struct M : Mach {
  A a, e; B b; C c; D d; mat<real> w; X x; Y y;
  const bool dyn = !isfix<A>::v;
  template<class F> void any(const S& r, F f) {
    if (r == "a") f(a); else if (r == "b") f(b); else if (r == "c") f(c); else if (r == "d") f(d); else if (r == "e") f(e); else if (r == "w") f(w); else bad(r);
  }
  template<class F> void same2(const S& p, const S& q, F f) {   // two registers of one shape
    S k = p + q;
    if (k == "aa") f(a, a); else if (k == "ae") f(a, e); else if (k == "ea") f(e, a); else if (k == "ee") f(e, e); else if (k == "bb") f(b, b); else if (k == "cc") f(c, c); else if (k == "dd") f(d, d);
    else if (k == "aw") f(a, w); else if (k == "bw") f(b, w); else if (k == "cw") f(c, w); else if (k == "dw") f(d, w); else if (k == "ew") f(e, w); else if (k == "ww") f(w, w);
    else if (k == "wa") f(w, a); else if (k == "wb") f(w, b); else if (k == "wc") f(w, c); else if (k == "wd") f(w, d); else if (k == "we") f(w, e);
    else dyn2(p, q, f, std::integral_constant<bool, !isfix<A>::v>());
  }
  template<class F> void dyn2(const S& p, const S& q, F f, std::true_type) { any(p, [&](mat<real>& u) { any(q, [&](mat<real>& v) { f(u, v); }); }); }
  template<class F> void dyn2(const S& p, const S& q, F f, std::false_type) { bad(p + q); }
  template<class F> void prod(const S& t, const S& p, const S& q, F f) {
    S k = t + p + q;
    if (k == "cab") f(c, a, b); else if (k == "ceb") f(c, e, b); else if (k == "dba") f(d, b, a); else if (k == "aed") f(a, e, d); else if (k == "eca") f(e, c, a); else if (k == "bdb") f(b, d, b);
    else if (k == "bbc") f(b, b, c); else if (k == "ccc") f(c, c, c); else if (k == "ddd") f(d, d, d);
    else if (t == "w" && q == "w") any(p, [&](auto& u) { f(w, u, w); });
    else if (t == "w" && p == "w") any(q, [&](auto& u) { f(w, w, u); });
    else dyn3(t, p, q, f, std::integral_constant<bool, !isfix<A>::v>());
  }
  template<class F> void dyn3(const S& t, const S& p, const S& q, F f, std::true_type) { any(t, [&](mat<real>& s) { any(p, [&](mat<real>& u) { any(q, [&](mat<real>& v) { f(s, u, v); }); }); }); }
  template<class F> void dyn3(const S& t, const S& p, const S& q, F f, std::false_type) { bad(t + p + q); }
  template<class F> void tr2(const S& p, const S& q, F f) {      // first has the transposed shape of the second
    S k = p + q;
    if (k == "ba") f(b, a); else if (k == "be") f(b, e); else if (k == "ab") f(a, b); else if (k == "eb") f(e, b); else if (k == "cc") f(c, c); else if (k == "dd") f(d, d);
    else dyn2(p, q, f, std::integral_constant<bool, !isfix<A>::v>());
  }
  template<class T> static S vs(const T& v) { return "[" + Ev::arr(v, v.size()) + "]"; }
  S regs() { return "{\"a\":" + ms(a) + ",\"b\":" + ms(b) + ",\"c\":" + ms(c) + ",\"d\":" + ms(d) + ",\"e\":" + ms(e) + ",\"w\":" + ms(w) + ",\"x\":" + vs(x) + ",\"y\":" + vs(y) + "}"; }
  template<class T, class U> struct same { static const bool v = std::is_same<T, U>::value; };
  void run(const S& op, Tok& t, std::vector<Ev>& out) {
    Ev ev(op);
    errno = 0;
    int T_ = 0;
    if (op == "new") {}
    else if (op == "add" || op == "sub") {
      S r = t.s(), p = t.s(), q = t.s(); int h = t.i(); bool P = op == "add"; ev.s("t", r).s("p", p).s("q", q);
      same2(p, q, [&](auto& u, auto& v) {
        if (h % 2) { any(r, [&](auto& s) { T_ = s.rows(); if (P) al::mat_sum(s, u, v); else al::mat_diff(s, u, v); }); }
        else { any(r, [&](auto& s) { T_ = tn(s); if (P) s = u + v; else s = u - v; }); } });
    } else if (op == "iadd" || op == "isub") {
      S r = t.s(), p = t.s(); bool P = op == "iadd"; ev.s("t", r).s("p", p);
      same2(r, p, [&](auto& s, auto& u) { if (P) s += u; else s -= u; });
    } else if (op == "lin2") {
      S r = t.s(), p = t.s(); double f = t.d(), g = t.d(); ev.s("t", r).s("p", p).d("x", f).d("y", g);
      same2(r, p, [&](auto& s, auto& u) { al::mat_lincomb(f, s, g, u); });
    } else if (op == "lin3") {
      S r = t.s(), p = t.s(), q = t.s(); double f = t.d(), g = t.d(); ev.s("t", r).s("p", p).s("q", q).d("x", f).d("y", g);
      any(r, [&](auto& s) { same2(p, q, [&](auto& u, auto& v) { al::mat_lincomb(s, f, u, g, v); }); });
    } else if (op == "mul") {
      S r = t.s(), p = t.s(), q = t.s(); int h = t.i(); ev.s("t", r).s("p", p).s("q", q);
      if (h == 3 && (r == p || r == q)) h = 0;
      prod(r, p, q, [&](auto& s, auto& u, auto& v) {
        typedef typename std::decay<decltype(s)>::type R;
        T_ = tn(s);
        if (h == 0) s = u * v; else if (h == 1) s = u.mul(v); else if (h == 2) s = al::mat_mul<typename std::decay<decltype(u)>::type, typename std::decay<decltype(v)>::type, R>(u, v);
        else { T_ = s.rows(); al::mat_mul(s, u, v); } });
    } else if (op == "imul") {
      S r = t.s(), p = t.s(); ev.s("t", r).s("p", p); S k = r + p;
      auto f = [&](auto& s, auto& u) { T_ = tn(s); s *= u; };
      if (k == "ad") f(a, d); else if (k == "ed") f(e, d); else if (k == "cc") f(c, c); else if (k == "dd") f(d, d); else if (k == "bc") f(b, c); else dyn2(r, p, f, std::integral_constant<bool, !isfix<A>::v>());
    } else if (op == "tmul" || op == "mult") {
      S r = t.s(), p = t.s(), q = t.s(); ev.s("t", r).s("p", p).s("q", q); bool tm = op == "tmul";
      auto f = [&](auto& s, auto& u, auto& v) { typedef typename std::decay<decltype(s)>::type R; typedef typename std::decay<decltype(u)>::type P; typedef typename std::decay<decltype(v)>::type Q;
        if (tm) s = al::mat_transpose_mul<P, Q, R>(u, v); else s = al::mat_mul_transpose<P, Q, R>(u, v); };
      S k = r + p + q;
      if (tm) { if (k == "dae") f(d, a, e); else if (k == "cbb") f(c, b, b); else dyn3(r, p, q, f, std::integral_constant<bool, !isfix<A>::v>()); }
      else { if (k == "cae") f(c, a, e); else if (k == "dbb") f(d, b, b); else dyn3(r, p, q, f, std::integral_constant<bool, !isfix<A>::v>()); }
    } else if (op == "tr" || op == "herm") {
      S r = t.s(), p = t.s(); int h = t.i(); ev.s("t", r).s("p", p); bool H = op == "herm"; if (r == p) h = 0;
      tr2(r, p, [&](auto& s, auto& u) { typedef typename std::decay<decltype(s)>::type R; typedef typename std::decay<decltype(u)>::type P;
        if (h % 2) { T_ = s.rows(); if (H) al::hermitian(s, u); else al::transpose(s, u); }
        else { T_ = tn(s); if (H) s = al::hermitian<P, R>(u); else s = al::transpose<P, R>(u); } });
    } else if (op == "itr" || op == "iherm") {
      S r = t.s(); ev.s("t", r);
      if (op == "iherm") any(r, [&](auto& s) { al::make_hermitian(s); });
      else if (r == "c") c.transpose(); else if (r == "d") d.transpose(); else if (r == "w") w.transpose(); else any(r, [&](auto& s) { al::make_transposed(s); });
    } else if (op == "scal") {
      S r = t.s(), p = t.s(); double f = t.d(); int h = t.i(); ev.s("t", r).s("p", p).d("x", f);
      same2(r, p, [&](auto& s, auto& u) { T_ = tn(s); if (h == 0) s = u * f; else if (h == 1) s = f * u; else { T_ = s.rows(); al::mat_scalmul(s, f, u); } });
    } else if (op == "iscal") {
      S r = t.s(); double f = t.d(); int h = t.i(); ev.s("t", r).d("x", f);
      any(r, [&](auto& s) { if (h % 2) s *= f; else al::mat_scalmul(f, s); });
    } else if (op == "div") {
      S r = t.s(), p = t.s(); double f = t.d(); ev.s("t", r).s("p", p).d("x", f);
      same2(r, p, [&](auto& s, auto& u) { s = u / f; });
    } else if (op == "idiv") {
      S r = t.s(); double f = t.d(); ev.s("t", r).d("x", f); any(r, [&](auto& s) { s /= f; });
    } else if (op == "set") {
      S r = t.s(); int i = t.i(), j = t.i(); double f = t.d(); int h = t.i(); ev.s("t", r).i("i", i).i("j", j).d("x", f); bool skip = false;
      any(r, [&](auto& s) { if (i >= (int) s.rows() || j >= (int) s.cols()) { skip = true; return; }
        if (h == 0) s(i, j) = f; else if (h == 1) s.at(i, j) = f; else { auto it = s.begin(); for (int n = 0; n < i * (int) s.cols() + j; ++n) ++it; *it = f; } });
      if (skip) return;
    } else if (op == "elem") {
      S r = t.s(); int i = t.i(), j = t.i(), h = t.i(); ev.s("p", r).i("i", i).i("j", j); bool skip = false;
      any(r, [&](auto& s) { const auto& k = s; if (i >= (int) s.rows() || j >= (int) s.cols()) { skip = true; return; } ev.d("r", h == 0 ? k(i, j) : h == 1 ? k.at(i, j) : h == 2 ? k.get(i, j) : s(i, j)); });
      if (skip) return;
    } else if (op == "swr" || op == "swc") {
      S r = t.s(); int i = t.i(), j = t.i(); ev.s("t", r).i("i", i).i("j", j);
      any(r, [&](auto& s) { if (op == "swr") al::mat_swap_rows(s, i, j); else al::mat_swap_cols(s, i, j); });
    } else if (op == "shift") {
      S r = t.s(); double f = t.d(); ev.s("t", r).d("x", f); any(r, [&](auto& s) { al::mat_shift_diagonal(s, f); });
    } else if (op == "zero" || op == "ident") {
      S r = t.s(); ev.s("t", r); any(r, [&](auto& s) { if (op == "zero") s.make_zeroes(); else al::make_identity(s); });
    } else if (op == "diag") {
      S r = t.s(); int n = t.i(), k = t.i(); double f = t.d(); int h = t.i(); ev.s("t", r).i("n", n).i("k", k).d("x", f);
      any(r, [&](auto& s) { T_ = tn(s); if (h && T_ && (n != (int) s.rows() || k != (int) s.cols())) h = 0; s = dg(s, f, n, k, h); });
    } else if (op == "rows") {
      S r = t.s(); int n = t.i(); std::vector<VD> l; for (int i = 0; i < n; ++i) l.push_back(t.vd()); S q = "["; for (int i = 0; i < n; ++i) q += (i ? "," : "") + Ev::arr(l[i], l[i].size());
      ev.s("t", r).raw("l", q + "]"); any(r, [&](auto& s) { T_ = tn(s); rowsop(s, l); });
    } else if (op == "resize") {
      S r = t.s(); int n = t.i(), k = t.i(); ev.s("t", r).i("n", n).i("k", k); any(r, [&](auto& s) { dynop(s, n, k); });
    } else if (op == "copy") {
      S r = t.s(), p = t.s(); int h = t.i(); ev.s("t", r).s("p", p);
      same2(r, p, [&](auto& s, auto& u) { typedef typename std::decay<decltype(s)>::type R; T_ = tn(s); if (h == 0) s = u; else if (h == 1) { R z(u); s = z; } else al::mat_copy(s, u); });
    } else if (op == "vset") {
      S r = t.s(); VD l = t.vd(); ev.s("t", r).v("l", l); auto f = [&](auto& v) { v.resize(l.size()); for (unsigned i = 0; i < l.size(); ++i) v[i] = l[i]; }; if (r == "x") f(x); else f(y);
    } else if (op == "mv") {
      S r = t.s(), p = t.s(), q = t.s(); int h = t.i(); ev.s("t", r).s("p", p).s("q", q); S k = r + p + q; if (r == q && h == 3) h = 0;
      auto f = [&](auto& s, auto& u, auto& v) { T_ = tv(s); if (h == 0) s = u * v; else if (h == 1) s = u.transform(v); else { T_ = s.size(); al::transform(s, u, v); } };
      auto g = [&](auto& s, auto& u, auto& v) { if (h == 2) { T_ = tv(s); s = al::transform(u, v); } else f(s, u, v); };
      if (k == "yax") f(y, a, x); else if (k == "xby") f(x, b, y); else if (k == "ycy") g(y, c, y); else if (k == "xdx") g(x, d, x); else if (k == "ywx" || k == "ywy") { vec<real> z; z = x; if (k == "ywy") z = y; vec<real> o; o = y; o = w * z; T_ = tv(y); y = o; }
      else if (k == "yex") f(y, e, x); else bad(k);
    } else if (op == "vm") {
      S r = t.s(), p = t.s(), q = t.s(); ev.s("t", r).s("p", p).s("q", q); S k = r + p + q;
      if (k == "xya") x = y * a; else if (k == "yxb") y = x * b; else if (k == "yyc") y = y * c; else bad(k);
    } else if (op == "apply") {
      S r = t.s(), p = t.s(); ev.s("t", r).s("p", p); S k = r + p;
      if (k == "yc") { T_ = tv(y); al::apply_transform(c, y); } else if (k == "xd") { T_ = tv(x); al::apply_transform(d, x); } else if (k == "xa") { T_ = tv(x); al::apply_transform(a, x); } else bad(k);
    } else if (op == "eq") {
      S p = t.s(), q = t.s(); ev.s("p", p).s("q", q); same2(p, q, [&](auto& u, auto& v) { bool r = u == v, n = u != v; ev.b("r", r).b("ne", n); });
    } else if (op == "trace" || op == "dprod" || op == "preds" || op == "dens" || op == "iter" || op == "print" || op == "size") {
      S p = t.s(); ev.s("p", p);
      any(p, [&](auto& u) {
        const auto& k = u;
        if (op == "trace") ev.d("r", al::trace(k)); else if (op == "dprod") ev.d("r", al::diagonal_product(k));
        else if (op == "preds") ev.b("sq", al::is_square(k)).b("di", al::is_diagonal(k)).b("sy", al::is_symmetric(k)).b("lo", al::is_lower_triangular(k)).b("up", al::is_upper_triangular(k));
        else if (op == "dens") ev.d("r", al::density(k)).d("sp", al::sparsity(k));
        else if (op == "iter") { VD r, rc; bool order = true; for (auto z : u) r.push_back(z); for (auto z : k) rc.push_back(z);
          unsigned n = 0; for (auto it = u.begin(); it != u.end(); ++it, ++n) order = order && it.row_index() == n / u.cols() && it.col_index() == n % u.cols(); ev.v("r", r).v("rc", rc).b("order", order); }
        else if (op == "print") { std::ostringstream o; if (t.more()) o << k; else o << k.to_string(); ev.s("r", o.str()); }
        else ev.i("n", k.rows()).i("k", k.cols()).i("r", k.size()); });
    } else bad(op);
    ev.i("tn", T_).i("err", errno).raw("regs", regs());
    out.push_back(ev);
  }
};
typedef complex<> Z;
template<class M1> static S cs(const M1& A) {
  S r = "[";
  for (unsigned i = 0; i < A.rows(); ++i) { r += i ? ",[" : "["; for (unsigned j = 0; j < A.cols(); ++j) r += (j ? S(",") : S("")) + "[\"" + vt::hex(A(i, j).Re()) + "\",\"" + vt::hex(A(i, j).Im()) + "\"]"; r += "]"; }
  return r + "]";
}
static Mach* m = 0;
static void reset() { delete m; m = 0; }
template<class A> static void fill(A& p, Tok& t) { for (unsigned i = 0; i < p.rows(); ++i) for (unsigned j = 0; j < p.cols(); ++j) { double r = t.d(), s = t.d(); p(i, j) = Z(r, s); } }
template<class A, class B, class C> static void cop(const S& op, A p, B q, C r, int h, Tok& t, std::vector<Ev>& out) {
  fill(p, t); Ev e(op); e.raw("m", cs(p)); errno = 0;
  if (op == "cherm") { if (h) al::hermitian(q, p); else q = al::hermitian<A, B>(p); e.raw("r", cs(q)); }
  else if (op == "ctr") { if (h) al::transpose(q, p); else q = al::transpose<A, B>(p); e.raw("r", cs(q)); }
  else if (op == "cmul") { fill(q, t); e.raw("q", cs(q)); if (h) al::mat_mul(r, p, q); else r = p * q; e.raw("r", cs(r)); }
  e.i("err", errno); out.push_back(e);
}
template<class A> static void csq(const S& op, A p, Tok& t, std::vector<Ev>& out) { fill(p, t); Ev e(op); e.raw("m", cs(p)); errno = 0; al::make_hermitian(p); e.raw("r", cs(p)).i("err", errno); out.push_back(e); }
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s();
  if (op == "cherm" || op == "ctr" || op == "cmul") {
    S k = t.s(); int h = t.i();
    if (k == "fix") cop(op, mat<Z, 2, 3>(), mat<Z, 3, 2>(), mat<Z, 2, 2>(), h, t, out);
    else { int n = t.i(), l = t.i(); cop(op, mat<Z>(n, l), mat<Z>(l, n), mat<Z>(n, n), h, t, out); }
    return;
  }
  if (op == "ciherm") { S k = t.s(); if (k == "fix") csq(op, mat<Z, 3, 3>(), t, out); else { int n = t.i(); csq(op, mat<Z>(n, n), t, out); } return; }
  if (op == "new") {
    S k = t.s(); int n = t.i(), l = t.i(); delete m; m = 0;
    if (k == "dyn") { auto* q = new M<mat<real>, mat<real>, mat<real>, mat<real>, vec<real>, vec<real>>(); m = q; q->a.resize(n, l); q->e.resize(n, l); q->b.resize(l, n); q->c.resize(n, n); q->d.resize(l, l); q->w.resize(n, l); q->x.resize(l); q->y.resize(n); }
#define F(N, K) else if (n == N && l == K) { auto* q = new M<mat<real, N, K>, mat<real, K, N>, mat<real, N, N>, mat<real, K, K>, vec<real, K>, vec<real, N>>(); m = q; q->w.resize(N, K); }
    F(1, 3) F(2, 2) F(2, 3) F(3, 2) F(3, 3) F(4, 2) F(2, 5)
    else return;
  }
  if (!m) return;     // a fixed shape that is not instantiated
  m->run(op, t, out);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
