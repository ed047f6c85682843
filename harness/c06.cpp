#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::real; using th::vec; using th::complex;
namespace al = th::algebra;
typedef std::vector<double> VD;
template<class V> struct Fix { static const int n = V::size_argument; };

struct Mach { virtual void run(const std::string& op, Tok& t, std::vector<Ev>& out) = 0; virtual ~Mach() {} };

template<class V> static void mk(V& v, const VD& l, long) {}
template<unsigned N> static void lst(vec<real, N>& v, const VD& l) {
  switch (l.size()) {
    case 0: v = vec<real, N>{}; break;
    case 1: v = vec<real, N>(std::initializer_list<real>{l[0]}); break;
    case 2: v = vec<real, N>(std::initializer_list<real>{l[0], l[1]}); break;
    case 3: v = vec<real, N>(std::initializer_list<real>{l[0], l[1], l[2]}); break;
    case 4: v = vec<real, N>(std::initializer_list<real>{l[0], l[1], l[2], l[3]}); break;
    default: v = vec<real, N>(std::initializer_list<real>{l[0], l[1], l[2], l[3], l[4]}); break;
  }
}
static void lst(vec<real>& v, const VD& l) {
  if (l.size() == 2) v = th::make_vec((real) l[0], (real) l[1]);
  else if (l.size() == 4) v = th::make_vec((real) l[0], (real) l[1], (real) l[2], (real) l[3]);
  else lst<0>(v, l);
}
// what only run-time-size vectors have
static bool dynop(vec<real>& t, const std::string& op, int n, double x) {
  if (op == "push") { real y = x; if (n) t.push(y); else t.push(std::move(y)); return true; }
  if (op == "resize") { t.resize(n); return true; }
  return false;
}
template<unsigned N> static bool dynop(vec<real, N>&, const std::string&, int, double) { fprintf(stderr, "dynamic only\n"); _exit(77); }
template<class W> static vec<real> mixadd(const vec<real>& p, const W& q, bool plus) { return plus ? p + q : p - q; }
template<unsigned N, class W> static vec<real, N> mixadd(const vec<real, N>&, const W&, bool) { fprintf(stderr, "dynamic only\n"); _exit(77); }
// cross products exist for dimension 3 (fixed) or run-time sizes
static vec<real> crossm(const vec<real>& p, const vec<real>& q, int how) { return how ? p.cross(q) : al::cross(p, q); }
static vec<real, 3> crossm(const vec<real, 3>& p, const vec<real, 3>& q, int how) { return how == 2 ? p.cross(VD{q[0], q[1], q[2]}) : how ? p.cross(q) : al::cross(p, q); }
template<unsigned N> static vec<real, N> crossm(const vec<real, N>& p, const vec<real, N>&, int) { fprintf(stderr, "no cross\n"); _exit(77); }

template<class V, class W> struct M : Mach {
  V a, b, c; W w;
  M(int n) { if (Fix<V>::n == 0) { a.resize(n); b.resize(n); c.resize(n); } if (Fix<W>::n == 0) w.resize(n); }
  V& R(const std::string& r) { if (r == "a") return a; if (r == "b") return b; if (r == "c") return c; fprintf(stderr, "register\n"); _exit(77); }
  std::string regs() {
    return "{\"a\":" + Ev::arr(a, a.size()) + ",\"b\":" + Ev::arr(b, b.size()) + ",\"c\":" + Ev::arr(c, c.size()) + ",\"w\":" + Ev::arr(w, w.size()) + "}";
  }
  void run(const std::string& op, Tok& t, std::vector<Ev>& out) {
    Ev e(op);
    const int fx = Fix<V>::n;
    errno = 0;
    if (op == "new") {}
    else if (op == "add" || op == "sub" || op == "vsum3" || op == "vdiff3") {
      std::string T = t.s(), P = t.s(), Q = t.s(); V &r = R(T), &p = R(P), &q = R(Q);
      if (op == "add") r = p + q; else if (op == "sub") r = p - q;
      else if (op == "vsum3") al::vec_sum(r, p, q); else al::vec_diff(r, p, q);
      e.s("t", T).s("p", P).s("q", Q);
    } else if (op == "addw" || op == "subw") {
      std::string T = t.s(), P = t.s(); R(T) = mixadd(R(P), w, op == "addw"); e.s("t", T).s("p", P).s("q", "w");
    } else if (op == "iadd" || op == "isub" || op == "vsum2" || op == "vdiff2" || op == "neg" || op == "pos" || op == "normalized") {
      std::string T = t.s(), P = t.s();
      if (P == "w") { V& r = R(T); if (op == "iadd") r += w; else if (op == "isub") r -= w; else if (op == "vsum2") al::vec_sum(r, w); else if (op == "vdiff2") al::vec_diff(r, w); else _exit(77);
        e.s("t", T).s("p", P).b("dyn", fx == 0).i("err", errno).raw("regs", regs()); out.push_back(e); return; }
      V &r = R(T), &p = R(P);
      if (op == "iadd") r += p; else if (op == "isub") r -= p; else if (op == "vsum2") al::vec_sum(r, p); else if (op == "vdiff2") al::vec_diff(r, p);
      else if (op == "neg") r = -p; else if (op == "pos") r = +p; else { if (t.more()) r = al::normalize(p); else r = p.normalized(); }
      e.s("t", T).s("p", P).b("dyn", fx == 0);
    } else if (op == "copy") {
      std::string T = t.s(), P = t.s(); int h = t.more() ? t.i() : 0;
      if (T == "w") { if (h == 0) w = R(P); else if (h == 1) { W z(R(P)); w = z; } else al::vec_copy(w, R(P)); }
      else if (P == "w") { if (h == 0) R(T) = w; else if (h == 1) { V z(w); R(T) = z; } else al::vec_copy(R(T), w); }
      else { if (h == 0) R(T) = R(P); else if (h == 1) { V z(R(P)); R(T) = z; } else al::vec_copy(R(T), R(P)); }
      e.s("t", T).s("p", P).i("tfix", T == "w" ? (int) Fix<W>::n : fx);
    } else if (op == "smul" || op == "sdiv" || op == "vscal3") {
      std::string T = t.s(), P = t.s(); double x = t.d(); int h = t.more() ? t.i() : 0; V &r = R(T), &p = R(P);
      if (op == "smul") { if (h) r = x * p; else r = p * x; } else if (op == "sdiv") r = p / x; else al::vec_scalmul(r, x, p);
      e.s("t", T).s("p", P).d("x", x);
    } else if (op == "imul" || op == "idiv" || op == "vscal2") {
      std::string T = t.s(); double x = t.d(); V& r = R(T);
      if (op == "imul") r *= x; else if (op == "idiv") r /= x; else al::vec_scalmul(x, r);
      e.s("t", T).d("x", x);
    } else if (op == "set") {
      std::string T = t.s(); int i = t.i(); double x = t.d(); std::string h = t.s();
      if (T == "w") { if (i < (int) w.size()) w[i] = x; else return; }
      else { V& r = R(T); if (i >= (int) r.size()) return; if (h == "idx") r[i] = x; else if (h == "at") r.at(i) = x; else if (h == "iter") { auto it = r.begin(); for (int k = 0; k < i; ++k) ++it; *it = x; } else r.set(i, x); }
      e.s("t", T).i("i", i).d("x", x);
    } else if (op == "fill") {
      std::string T = t.s(); int n = t.i(); double x = t.d(); V z(n, x); R(T) = z; e.s("t", T).i("n", n).d("x", x);
    } else if (op == "zeroes") {
      std::string T = t.s(); al::vec_zeroes(R(T)); e.s("t", T);
    } else if (op == "base") {
      std::string T = t.s(); int i = t.i(), n = t.i(); R(T) = V::euclidean_base(i, n); e.s("t", T).i("i", i).i("n", n);
    } else if (op == "list") {
      std::string T = t.s(); VD l = t.vd(); lst(R(T), l); e.s("t", T).v("l", l).i("tfix", fx);
    } else if (op == "push" || op == "resize") {
      std::string T = t.s(); int n = t.i(); double x = t.d(); if (T == "w") dynop(w, op, n, x); else dynop(R(T), op, n, x); e.s("t", T).i("n", n).d("x", x);
    } else if (op == "cross") {
      std::string T = t.s(), P = t.s(), Q = t.s(); R(T) = crossm(R(P), R(Q), t.i()); e.s("t", T).s("p", P).s("q", Q);
    } else if (op == "normalize") {
      std::string T = t.s(); if (t.more()) al::make_normalized(R(T)); else R(T).normalize(); e.s("t", T);
    } else if (op == "dot") {
      std::string P = t.s(), Q = t.s(); int h = t.more() ? t.i() : 0; double r;
      if (Q == "w") r = h == 0 ? R(P).dot(w) : h == 1 ? R(P) * w : al::dot(R(P), w);
      else r = h == 0 ? R(P).dot(R(Q)) : h == 1 ? R(P) * R(Q) : al::dot(R(P), R(Q));
      e.s("p", P).s("q", Q).d("r", r);
    } else if (op == "eq") {
      std::string P = t.s(), Q = t.s(); bool r, n;
      if (Q == "w") { r = R(P) == w; n = R(P) != w; } else { r = R(P) == R(Q); n = R(P) != R(Q); }
      e.s("p", P).s("q", Q).b("r", r).b("ne", n);
    } else if (op == "norm" || op == "sqrnorm") {
      std::string P = t.s(); int h = t.more(); double r = op == "norm" ? (h ? al::norm(R(P)) : R(P).norm()) : (h ? al::sqr_norm(R(P)) : R(P).sqr_norm());
      e.s("p", P).d("r", r);
    } else if (op == "iter") {
      std::string P = t.s(); VD r, rc; for (auto x : R(P)) r.push_back(x); const V& k = R(P); for (auto x : k) rc.push_back(x);
      e.s("p", P).v("r", r).v("rc", rc);
    } else if (op == "print") {
      std::string P = t.s(); std::ostringstream s; if (t.more()) s << R(P); else s << R(P).to_string(); e.s("p", P).s("r", s.str());
    } else if (op == "size") {
      std::string P = t.s(); e.s("p", P).i("r", R(P).size());
    } else if (op == "elem") {
      std::string P = t.s(); int i = t.i(), h = t.i(); const V& k = R(P); if (i >= (int) k.size()) return;
      e.s("p", P).i("i", i).d("r", h == 0 ? k[i] : h == 1 ? k.get(i) : R(P).at(i));
    } else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(77); }
    e.i("err", errno).raw("regs", regs());
    out.push_back(e);
  }
};
static Mach* m = 0;
static void reset() { delete m; m = 0; }
template<class CV> static void cops(const std::string& op, CV v, CV w, std::vector<Ev>& out) {
  auto S = [](complex<> z) { return "[\"" + vt::hex(z.Re()) + "\",\"" + vt::hex(z.Im()) + "\"]"; };
  auto SV = [&](const CV& x) { std::string r = "["; for (unsigned i = 0; i < x.size(); ++i) r += (i ? "," : "") + S(x[i]); return r + "]"; };
  errno = 0;
  Ev e(op); e.raw("v", SV(v));
  if (op == "cdot") { complex<> r = v * w; e.raw("w", SV(w)).raw("r", S(r)); }
  else { complex<> r = v.norm(), q = v.sqr_norm(); e.raw("r", S(r)).raw("sq", S(q)).raw("u", SV(v.normalized())); }
  e.i("err", errno);
  out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s();
  if (op == "cdot" || op == "cnorm") {
    std::string k = t.s(); VD a = t.vd(), b = op == "cdot" ? t.vd() : a; int n = a.size() / 2;
    vec<complex<>> v(n), w(n); vec<complex<>, 3> v3, w3;
    for (int i = 0; i < n; ++i) { v[i] = complex<>(a[2 * i], a[2 * i + 1]); w[i] = complex<>(b[2 * i], b[2 * i + 1]); if (n == 3) { v3[i] = v[i]; w3[i] = w[i]; } }
    if (n == 3 && k == "fix") cops(op, v3, w3, out); else cops(op, v, w, out);
    return;
  }
  if (op == "new") {
    std::string k = t.s(); int n = t.i(); delete m;
#define C(N) case N: if (k == "fix") m = new M<vec<real, N>, vec<real>>(N); else m = new M<vec<real>, vec<real, N>>(N); break;
    switch (n) { C(1) C(2) C(3) C(4) C(5) C(6) C(8) C(9) C(16) C(17) C(33) default: _exit(77); }
  }
  if (!m) _exit(77);
  m->run(op, t, out);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
