#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;

template<class U> static uint64_t f1(const std::string& op, U n) {
  if (op == "isqrt") return (uint64_t) th::isqrt<U>(n);
  if (op == "icbrt") return (uint64_t) th::icbrt<U>(n);
  if (op == "ilog2") return (uint64_t) th::ilog2<U>(n);
  return (uint64_t) th::pad2<U>(n);
}

static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s();
  if (op == "isqrt" || op == "icbrt" || op == "ilog2" || op == "pad2") {
    int w = t.i(); uint64_t n = t.u(), r;
    switch (w) {
      case 8: r = f1<uint8_t>(op, n); break;
      case 16: r = f1<uint16_t>(op, n); break;
      case 32: r = f1<uint32_t>(op, n); break;
      default: r = f1<uint64_t>(op, n); break;
    }
    out.push_back(Ev(op).i("w", w).u("n", n).u("r", r));
  } else if (op == "fact") { unsigned n = t.i(); out.push_back(Ev(op).i("n", n).u("r", th::fact<uint64_t>(n))); }
  else if (op == "dfact") { unsigned n = t.i(); out.push_back(Ev(op).i("n", n).u("r", th::double_fact<uint64_t>(n))); }
  else if (op == "falling") { uint64_t x = t.u(); unsigned n = t.i(); out.push_back(Ev(op).u("x", x).i("n", n).u("r", th::falling_fact<uint64_t>(x, n))); }
  else if (op == "rising") { uint64_t x = t.u(); unsigned n = t.i(); out.push_back(Ev(op).u("x", x).i("n", n).u("r", th::rising_fact<uint64_t>(x, n))); }
  else if (op == "binom") { unsigned n = t.i(), k = t.i(); out.push_back(Ev(op).i("n", n).i("k", k).u("r", th::binomial_coeff<uint64_t>(n, k))); }
  else if (op == "catalan") { unsigned n = t.i(); out.push_back(Ev(op).i("n", n).u("r", th::catalan<uint64_t>(n))); }
  else if (op == "ipowu") { uint64_t x = t.u(); unsigned n = t.i(); out.push_back(Ev(op).u("x", x).i("n", n).u("r", th::ipow<uint64_t>(x, n))); }
  else if (op == "pow") {
    double x = t.d(); int n = t.i();
    out.push_back(Ev(op).d("x", x).i("n", n).d("r", th::pow(x, n)));
    if (n >= 0) out.push_back(Ev(op).d("x", x).i("n", n).d("r", th::ipow(x, (unsigned) n)));
  } else if (op == "ffall") { double x = t.d(); int n = t.i(); out.push_back(Ev(op).d("x", x).i("n", n).d("r", th::falling_fact<double>(x, n))); }
  else if (op == "frise") { double x = t.d(); int n = t.i(); out.push_back(Ev(op).d("x", x).i("n", n).d("r", th::rising_fact<double>(x, n))); }
  else if (op == "delta") { int i = t.i(), j = t.i(); out.push_back(Ev(op).i("i", i).i("j", j).i("r", th::kronecker_delta<int>(i, j))); }
  else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(77); }
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
