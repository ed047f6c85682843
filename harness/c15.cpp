#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec;
typedef th::complex<real> C;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static S cs(const C& z) { return "[\"" + hex(z.a) + "\",\"" + hex(z.b) + "\"]"; }
template<class V> static S cv(const V& v) { S r = "["; for (unsigned i = 0; i < v.size(); ++i) r += S(i ? "," : "") + cs(v[i]); return r + "]"; }
template<class V> static void go(const S& op, bool inv, V x, std::vector<Ev>& out, int how) {
  unsigned n = x.size(); const V x0 = x;
  if (op == "round") { Ev e("round"); e.raw("x", cv(x)); errno = 0; V r = th::signal::template ifft<V, V>(th::signal::template fft<V, V>(x)); e.i("err", errno).raw("r", cv(r)); out.push_back(e); return; }
  Ev e("fft"); e.i("n", n).b("inv", inv).raw("x", n && !(n & (n - 1)) ? cv(x0) : S("[]")); errno = 0;
  V r = inv ? (how ? th::signal::template ifft<V, V>(x) : th::signal::template fft<V, V>(x, true)) : th::signal::template fft<V, V>(x);
  e.i("err", errno).i("rn", r.size()).raw("x1", n && !(n & (n - 1)) ? cv(x) : S("[]"));
  S b = "[", q = "[";
  for (unsigned j = 0; j < r.size(); ++j) { if (n > 32 && !(j < 2 || j == n / 2 || j == n / 2 + 1 || j == n - 1 || j * 2654435761u % n < 4)) continue; if (b.size() > 1) { b += ","; q += ","; } b += std::to_string(j); q += cs(r[j]); }
  e.raw("bins", b + "]").raw("r", q + "]"); out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(), kind = t.s(); bool inv = t.i(); VD a = t.vd(), b = t.vd(); unsigned n = a.size();
  if (op != "fft" && op != "round") bad(op);
#define F(N) if (kind == "fix" && n == N) { vec<C, N> x; for (unsigned i = 0; i < n; ++i) x[i] = C(a[i], b[i]); go(op, inv, x, out, 1); return; }
  F(2) F(4) F(8) F(3)
  th::cvec x; x.resize(n); for (unsigned i = 0; i < n; ++i) x[i] = C(a[i], b[i]);
  go(op, inv, x, out, kind == "dyn");
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
