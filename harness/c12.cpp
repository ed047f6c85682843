#include "theoretica.h"
#include "complex/quat.h"
#include "complex/phasor.h"
#include "core/ratio.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec;
typedef th::complex<real> C;
typedef th::quat<real> Q;
typedef th::phasor<real> P;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static VD qs(const Q& q) { return {q.a, q.b, q.c, q.d}; }
static VD ps(const P& q) { return {q.modulus, q.phase}; }
static Q cur; static P pc;
static void reset() { cur = Q(); pc = P(); }
static Q quat(Tok& t) { double a = t.d(), b = t.d(), c = t.d(), d = t.d(); return Q(a, b, c, d); }
static P phas(Tok& t) { double a = t.d(), b = t.d(); return P(a, b); }
template<class X> static X bin(const S& f, const X& a, const X& b) { return f == "+" ? a + b : f == "-" ? a - b : f == "*" ? a * b : a / b; }
template<class X> static X& asg(const S& f, X& a, const X& b) { return f == "+" ? a += b : f == "-" ? a -= b : f == "*" ? a *= b : a /= b; }
template<class V> static V mk(const VD& v) { V r; r.resize(v.size()); for (unsigned i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
template<class R> static void ratio(Ev& e, const S& f, const R& p, const R& q) {
  R r = f == "+" ? p + q : f == "-" ? p - q : f == "*" ? p * q : f == "/" ? p / q : f == "*k" ? p * q.num : p / q.den;
  VD a = {(double) r.num, (double) r.den}; e.v("r", a).d("v", r.template eval_as<double>());
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s();
  Ev e(op);
  if (op == "qset") { S k = t.s(); Q p = quat(t); errno = 0; if (k == "arr") cur = std::array<real, 4>{p.a, p.b, p.c, p.d}; else cur = p; e.v("p", qs(p)).v("r", qs(cur)); }
  else if (op == "qasg") {
    S f = t.s(); bool self = t.s() == "self"; Q q = self ? cur : quat(t); e.s("f", f).v("q", qs(q)); errno = 0;
    Q& r = self ? asg(f, cur, cur) : asg(f, cur, q); e.i("err", errno); if (&r != &cur) bad("reference");
    e.v("r", qs(cur));
  } else if (op == "qasgr") { S f = t.s(); real k = t.d(); e.s("f", f).d("k", k); errno = 0; if (f == "*") cur *= k; else cur /= k; e.i("err", errno).v("r", qs(cur)); }
  else if (op == "qinv") { errno = 0; cur.invert(); e.i("err", errno).v("r", qs(cur)); }
  else if (op == "qbin") { S f = t.s(); Q p = quat(t), q = quat(t); e.s("f", f).v("p", qs(p)).v("q", qs(q)); errno = 0; Q r = bin(f, p, q); e.i("err", errno).v("r", qs(r)).v("cur", qs(cur)); }
  else if (op == "qbinr") { S f = t.s(); Q p = quat(t); real k = t.d(); e.s("f", f).v("p", qs(p)).d("k", k); errno = 0; Q r = f == "+" ? p + k : f == "-" ? p - k : f == "*" ? p * k : p / k; e.i("err", errno).v("r", qs(r)).v("cur", qs(cur)); }
  else if (op == "rqbin") { S f = t.s(); real k = t.d(); Q p = quat(t); e.s("f", f).v("p", qs(p)).d("k", k); errno = 0; Q r = f == "+" ? k + p : f == "-" ? k - p : f == "*" ? k * p : k / p; e.i("err", errno).v("r", qs(r)).v("cur", qs(cur)); }
  else if (op == "qun") {
    S f = t.s(); Q p = quat(t); e.s("f", f).v("p", qs(p)); errno = 0;
    Q r = f == "inverse" ? p.inverse() : f == "conj" ? p.conjugate() : f == "neg" ? -p : f == "pos" ? +p : Q(p.a > 0 ? Re(p) : p.Re(), p.a > 0 ? Im1(p) : p.Im1(), p.a > 0 ? Im2(p) : p.Im2(), p.a > 0 ? Im3(p) : p.Im3());
    e.i("err", errno).v("r", qs(r));
  } else if (op == "qnorm") { Q p = quat(t); e.v("p", qs(p)).d("n2", p.sqr_norm()).d("r", p.norm()); }
  else if (op == "qrotation") { S k = t.s(); real th_ = t.d(); VD a = t.vd(); e.d("th", th_).v("ax", a); errno = 0; Q r = k == "fix" ? Q::rotation(th_, mk<vec<real, 3>>(a)) : Q::rotation(th_, mk<vec<real>>(a)); e.i("err", errno).v("r", qs(r)); }
  else if (op == "qrotate") {
    S k = t.s(); real th_ = t.d(); VD a = t.vd(), v = t.vd(); e.d("th", th_).v("ax", a).v("v", v); errno = 0;
    if (k == "fix") { auto r = Q::rotate(mk<vec<real, 3>>(v), th_, mk<vec<real, 3>>(a)); e.i("err", errno).v("r", r); } else { auto r = Q::rotate(mk<vec<real>>(v), th_, mk<vec<real>>(a)); e.i("err", errno).v("r", r); }
  } else if (op == "qtrans") {
    S k = t.s(); Q p = quat(t); VD v = t.vd(); e.v("p", qs(p)).v("v", v); errno = 0;
    if (k == "fix") { auto r = p.transform(mk<vec<real, 3>>(v)); e.i("err", errno).v("r", r); } else { auto r = p.transform(mk<vec<real>>(v)); e.i("err", errno).v("r", r); }
  } else if (op == "pset") { S k = t.s(); P p = phas(t); if (k == "arr") pc = std::array<real, 2>{p.modulus, p.phase}; else pc = p; e.v("p", ps(p)).v("r", ps(pc)); }
  else if (op == "pofc") { double a = t.d(), b = t.d(); C z(a, b); VD zz = {a, b}; e.v("z", zz); errno = 0; pc = P(z); e.i("err", errno).v("r", ps(pc)); }
  else if (op == "pasg") {
    S f = t.s(); bool self = t.s() == "self"; P q = self ? pc : phas(t); e.s("f", f).v("q", ps(q)); errno = 0;
    P& r = self ? asg(f, pc, pc) : asg(f, pc, q); e.i("err", errno); if (&r != &pc) bad("reference");
    e.v("r", ps(pc));
  } else if (op == "pinv") { errno = 0; pc.invert(); e.i("err", errno).v("r", ps(pc)); }
  else if (op == "pbin") { S f = t.s(); P p = phas(t), q = phas(t); e.s("f", f).v("p", ps(p)).v("q", ps(q)); errno = 0; P r = bin(f, p, q); e.i("err", errno).v("r", ps(r)).v("cur", ps(pc)); }
  else if (op == "rpbin") { S f = t.s(); real k = t.d(); P p = phas(t); e.s("f", f).v("p", ps(p)).d("k", k); errno = 0; P r = f == "+" ? k + p : f == "-" ? k - p : f == "*" ? k * p : k / p; e.i("err", errno).v("r", ps(r)); }
  else if (op == "cpbin") { S f = t.s(); double a = t.d(), b = t.d(); C z(a, b); P p = phas(t); VD zz = {a, b}; e.v("z", zz).v("p", ps(p)); errno = 0; P r = f == "cp" ? z * p : p * z; e.i("err", errno).v("r", ps(r)); }
  else if (op == "pun") {
    S f = t.s(); P p = phas(t); e.s("f", f).v("p", ps(p)); errno = 0;
    if (f == "inverse") { P r = p.inverse(); e.i("err", errno).v("r", ps(r)); }
    else if (f == "conj") { P r = p.conjugate(); e.i("err", errno).v("r", ps(r)); }
    else if (f == "tocx") { C z = p.modulus > 1 ? p.to_complex() : C(Re(p), Im(p)); VD r = {z.a, z.b}; e.i("err", errno).v("r", r); }
    else { VD r = {p.norm(), p.arg()}; e.i("err", errno).v("r", r).d("n2", p.sqr_norm()); }
  } else if (op == "peq") { P p = phas(t), q = phas(t); e.v("p", ps(p)).v("q", ps(q)).b("eq", p == q).b("ne", p != q); }
  else if (op == "ratio") {
    S k = t.s(), f = t.s(); int64_t a = t.l(), b = t.l(), c = t.l(), d = t.l(); VD p = {(double) a, (double) b}, q = {(double) c, (double) d}; e.s("f", f).v("p", p).v("q", q); errno = 0;
    if (k == "i") ratio(e, f, th::ratio<int64_t>(a, b), th::ratio<int64_t>(c, d)); else if (k == "d") ratio(e, f, th::ratio<double>(a, b), th::ratio<double>(c, d)); else ratio(e, f, th::ratio<int, double>(a, b), th::ratio<int, double>(c, d));
  } else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
