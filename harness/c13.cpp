#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real;
typedef th::complex<real> C;
typedef th::polynomial<real> P;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static S cs(const C& z) { return "[\"" + hex(z.a) + "\",\"" + hex(z.b) + "\"]"; }
static P cur;
static void reset() { cur = P(); }
static P poly(Tok& t) { return P(t.vd()); }
static P bin(const S& f, const P& a, const P& b) { return f == "+" ? a + b : f == "-" ? a - b : f == "*" ? a * b : a / b; }
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s();
  Ev e(op);
  if (op == "set") { VD v = t.vd(); if (v.size() == 1) cur = P(v[0]); else cur = P(v); e.v("p", v).v("r", cur.coeff); }
  else if (op == "asg") {
    S f = t.s(); bool self = t.s() == "self"; P q = self ? cur : poly(t); e.s("f", f).v("q", q.coeff); errno = 0;
    const P& b = self ? cur : q;
    P& r = f == "+" ? cur += b : f == "-" ? cur -= b : f == "*" ? cur *= b : cur /= b; e.i("err", errno); if (&r != &cur) bad("reference");
    e.v("r", cur.coeff);
  } else if (op == "asgr") { S f = t.s(); real a = t.d(); e.s("f", f).d("a", a); errno = 0; if (f == "*") cur *= a; else cur /= a; e.i("err", errno).v("r", cur.coeff); }
  else if (op == "trim") { errno = 0; cur.trim(); e.i("err", errno).v("r", cur.coeff); }
  else if (op == "bin") { S f = t.s(); P p = poly(t), q = poly(t); e.s("f", f).v("p", p.coeff).v("q", q.coeff); errno = 0; P r = bin(f, p, q); e.i("err", errno).v("r", r.coeff).v("cur", cur.coeff); }
  else if (op == "binr") { S f = t.s(); P p = poly(t); real a = t.d(); e.s("f", f).v("p", p.coeff).d("a", a); errno = 0; P r = f == "*" ? p * a : p / a; e.i("err", errno).v("r", r.coeff).v("cur", cur.coeff); }
  else if (op == "rbin") { S f = t.s(); real a = t.d(); P p = poly(t); e.s("f", f).v("p", p.coeff).d("a", a); errno = 0; P r = f == "+" ? a + p : f == "-" ? a - p : a * p; e.i("err", errno).v("r", r.coeff).v("cur", cur.coeff); }
  else if (op == "order") { P p = poly(t); e.v("p", p.coeff); errno = 0; long r = p.find_order(); e.i("err", errno).i("r", r).i("n", p.size()); }
  else if (op == "eval") { P p = poly(t); real x = t.d(); e.v("p", p.coeff).d("x", x); errno = 0; real r = p(x); e.i("err", errno).d("r", r).d("r2", p.eval(x)); }
  else if (op == "ceval") { P p = poly(t); double a = t.d(), b = t.d(); C z(a, b); e.v("p", p.coeff).raw("z", cs(z)); errno = 0; C r = p(z); e.i("err", errno).raw("r", cs(r)); }
  else if (op == "deriv") { P p = poly(t); e.v("p", p.coeff); errno = 0; P r = th::deriv(p); e.i("err", errno).v("r", r.coeff); }
  else if (op == "derivat") { P p = poly(t); real x = t.d(); e.v("p", p.coeff).d("x", x); errno = 0; real r = th::deriv(p, x); e.i("err", errno).d("r", r); }
  else if (op == "integ") { P p = poly(t); e.v("p", p.coeff); errno = 0; P r = th::integral(p); e.i("err", errno).v("r", r.coeff); }
  else if (op == "integat") { P p = poly(t); real a = t.d(), b = t.d(); e.v("p", p.coeff).d("a", a).d("b", b); errno = 0; real r = th::integral(p, a, b); e.i("err", errno).d("r", r); }
  else if (op == "froots") { VD x = t.vd(); e.v("x", x); errno = 0; P r = P::from_roots(x); e.i("err", errno).v("r", r.coeff); }
  else if (op == "mono") { int n = t.i(); real a = t.d(); e.i("n", n).d("a", a); errno = 0; P r = P::monomial(a, n); e.i("err", errno).v("r", r.coeff); }
  else if (op == "eq") { P p = poly(t), q = poly(t); e.v("p", p.coeff).v("q", q.coeff); bool r = p == q; e.b("r", r); }
  else if (op == "quad") { P p = poly(t); e.v("p", p.coeff); errno = 0; auto r = p.quadratic_roots(); e.i("err", errno).raw("r", "[" + cs(r[0]) + "," + cs(r[1]) + "]"); }
  else if (op == "roots") { P p = poly(t); real tol = t.d(); unsigned st = t.i(); e.v("p", p.coeff).d("tol", tol); errno = 0; auto r = th::roots(p, tol, st); e.i("err", errno).v("r", r); }
  else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
