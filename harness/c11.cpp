#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real;
typedef th::complex<real> C;
typedef std::string S;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static S cs(const C& z) { return "[\"" + hex(z.a) + "\",\"" + hex(z.b) + "\"]"; }
static C cur;
static void reset() { cur = C(); }
static C num(Tok& t) { double a = t.d(), b = t.d(); return C(a, b); }
static C bin(const S& f, const C& z, const C& w) { return f == "+" ? z + w : f == "-" ? z - w : f == "*" ? z * w : z / w; }
static C un(const S& f, const C& z) {
  if (f == "inverse") return z.inverse();
  if (f == "finverse") return th::inverse(z);
  if (f == "conj") return z.Im() == 0 ? z.conjugate() : th::conjugate(z);
  if (f == "neg") return -z;
  if (f == "id") return th::identity(+z);
  if (f == "square") return th::square(z);
  if (f == "cube") return th::cube(z);
  if (f == "sqrt") return th::sqrt(z);
  if (f == "exp") return th::exp(z);
  if (f == "sin") return th::sin(z);
  if (f == "cos") return th::cos(z);
  if (f == "tan") return th::tan(z);
  if (f == "ln") return th::ln(z);
  if (f == "asin") return th::asin(z);
  if (f == "acos") return th::acos(z);
  if (f == "atan") return th::atan(z);
  bad(f);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s();
  Ev e(op);
  if (op == "set") { cur = num(t); e.raw("r", cs(cur)); out.push_back(e); return; }
  if (op == "seta") { std::array<real, 2> v; v[0] = t.d(); v[1] = t.d(); cur = v; Ev g("set"); g.raw("r", cs(cur)); out.push_back(g); return; }
  if (op == "asg") {
    S f = t.s(); bool self = t.s() == "self"; C w = self ? cur : num(t); e.s("f", f).raw("w", cs(w)); errno = 0;
    C& r = self ? (f == "+" ? cur += cur : f == "-" ? cur -= cur : f == "*" ? cur *= cur : cur /= cur) : (f == "+" ? cur += w : f == "-" ? cur -= w : f == "*" ? cur *= w : cur /= w);
    e.i("err", errno); if (&r != &cur) bad("reference");
    e.raw("r", cs(cur));
  } else if (op == "asgr") {
    S f = t.s(); real k = t.d(); e.s("f", f).d("k", k); errno = 0;
    C& r = f == "+" ? cur += k : f == "-" ? cur -= k : f == "*" ? cur *= k : cur /= k; e.i("err", errno); if (&r != &cur) bad("reference");
    e.raw("r", cs(cur));
  } else if (op == "inv") { errno = 0; cur.invert(); e.i("err", errno).raw("r", cs(cur)); }
  else if (op == "bin") { S f = t.s(); C z = num(t), w = num(t); e.s("f", f).raw("z", cs(z)).raw("w", cs(w)); errno = 0; C r = bin(f, z, w); e.i("err", errno).raw("r", cs(r)).raw("cur", cs(cur)); }
  else if (op == "binr") { S f = t.s(); C z = num(t); real k = t.d(); e.s("f", f).raw("z", cs(z)).d("k", k); errno = 0; C r = f == "+" ? z + k : f == "-" ? z - k : f == "*" ? z * k : z / k; e.i("err", errno).raw("r", cs(r)).raw("cur", cs(cur)); }
  else if (op == "rbin") { S f = t.s(); real k = t.d(); C z = num(t); e.s("f", f).raw("z", cs(z)).d("k", k); errno = 0; C r = f == "+" ? k + z : f == "-" ? k - z : f == "*" ? k * z : k / z; e.i("err", errno).raw("r", cs(r)).raw("cur", cs(cur)); }
  else if (op == "un") { S f = t.s(); C z = num(t); e.s("f", f).raw("z", cs(z)); errno = 0; C r = un(f, z); e.i("err", errno).raw("r", cs(r)).raw("cur", cs(cur)); }
  else if (op == "realf") {
    S f = t.s(); C z = num(t); e.s("f", f).raw("z", cs(z)); errno = 0; const C& y = z;
    real r = f == "re" ? (z.b > 0 ? Re(y) : y.Re()) : f == "im" ? (z.a > 0 ? Im(y) : y.Im()) : f == "sqr" ? z.sqr_norm() : f == "norm" ? z.norm() : f == "abs" ? th::abs(z) : f == "arg" ? z.arg() : (real) z;
    e.i("err", errno).d("r", r);
  } else if (op == "rotor") { real k = t.d(); e.d("k", k); errno = 0; C r = C::rotor(k); e.i("err", errno).raw("r", cs(r)); }
  else if (op == "eq") { C z = num(t), w = num(t); e.raw("z", cs(z)).raw("w", cs(w)).b("eq", z == w).b("ne", z != w); }
  else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
