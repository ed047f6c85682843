#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using th::real;
typedef std::string S;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static S fam;
static std::vector<std::pair<double, double>> calls;
static real raw(real x) {
  if (fam == "sin") return std::sin(x);
  if (fam == "exp") return std::exp(x / 8);
  if (fam == "abs") return std::fabs(x);
  if (fam == "cubic") return 2 + x * (3 + x * (-1 + x / 4));
  if (fam == "deg6") return 1 + x * x * x * x * x * (x - 2);
  if (fam == "hash") { uint64_t u; memcpy(&u, &x, 8); u *= 0x9E3779B97F4A7C15ull; u ^= u >> 29; u *= 0xBF58476D1CE4E5B9ull; u ^= u >> 32; return (double) (u >> 12) / 4503599627370496.0 - 0.5; }
  if (fam == "const") return 3.5;
  bad(fam);
}
static real fp(real x) { real y = raw(x); calls.emplace_back(x, y); return y; }
template<class F> static real call(const S& r, F f, real x, real h, int d, bool def) {
  if (r == "central") return def ? th::deriv_central(f, x) : th::deriv_central(f, x, h);
  if (r == "forward") return def ? th::deriv_forward(f, x) : th::deriv_forward(f, x, h);
  if (r == "backward") return def ? th::deriv_backward(f, x) : th::deriv_backward(f, x, h);
  if (r == "ridders2") return def ? th::deriv_ridders2(f, x) : th::deriv_ridders2(f, x, h);
  if (r == "deriv") return def ? th::deriv(f, x) : th::deriv(f, x, h);
  if (r == "deriv2") return def ? th::deriv2(f, x) : th::deriv2(f, x, h);
  if (r == "ridders") return def ? th::deriv_ridders(f, x) : th::deriv_ridders(f, x, h, d);
  bad(r);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S r = t.s(); fam = t.s(); real x = t.d(); S hs = t.s(); bool def = hs == "default"; real h = def ? (r == "ridders" ? 0.01 : (real) th::CALCULUS_DERIV_STEP) : strtod(hs.c_str(), 0); int d = t.i(); S how = t.s(); if (def) d = 3;
  calls.clear(); errno = 0;
  real y = how == "ptr" ? call(r, fp, x, h, d, def) : how == "lambda" ? call(r, [](real z) { return fp(z); }, x, h, d, def) : call(r, std::function<real(real)>(fp), x, h, d, def);
  Ev e("fd"); e.s("f", r).d("x", x).d("h", h).i("d", d).i("err", errno);
  S c = "["; for (size_t i = 0; i < calls.size(); ++i) { if (i) c += ","; c += "[\"" + hex(calls[i].first) + "\",\"" + hex(calls[i].second) + "\"]"; }
  e.raw("calls", c + "]").d("r", y); out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
