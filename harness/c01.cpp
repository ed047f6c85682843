#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
static int w = 64;
static uint64_t reg = 0;

template<class U> static uint64_t rot(uint64_t x, unsigned i) { return (uint64_t) th::bit_rotate<U>((U) x, i); }

static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s();
  if (op == "mul") {
    uint64_t a = t.u(), b = t.u(), lo = 0x1234, hi = 0x5678;
    th::mul_uint128(a, b, lo, hi);
    out.push_back(Ev("mul").u("a", a).u("b", b).u("lo", lo).u("hi", hi));
  } else if (op == "mum") {
    uint64_t a = t.u(), b = t.u();
    out.push_back(Ev("mum").u("a", a).u("b", b).u("r", th::mix_mum(a, b)));
  } else if (op == "load") {
    w = t.i(); reg = t.u();
    out.push_back(Ev("load").i("w", w).u("x", reg));
  } else if (op == "rot") {
    unsigned i = (unsigned) t.i();
    switch (w) {
      case 8: reg = rot<uint8_t>(reg, i); break;
      case 16: reg = rot<uint16_t>(reg, i); break;
      case 32: reg = rot<uint32_t>(reg, i); break;
      default: reg = rot<uint64_t>(reg, i); break;
    }
    out.push_back(Ev("rot").i("i", i).u("r", reg));
  } else if (op == "rev") {
    unsigned m = t.i();
    std::string ty = t.s();
    std::vector<int> x = t.vi();
    std::vector<int> y(x.size());
    if (ty == "vec") { th::vec<double> v(x.size()); for (size_t k = 0; k < x.size(); ++k) v[k] = x[k]; th::swap_bit_reverse(v, m); for (size_t k = 0; k < x.size(); ++k) y[k] = (int) v[k]; }
    else { std::vector<double> v(x.begin(), x.end()); th::swap_bit_reverse(v, m); for (size_t k = 0; k < x.size(); ++k) y[k] = (int) v[k]; }
    out.push_back(Ev("rev").i("m", m).iv("x", x).iv("y", y));
  } else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(77); }
}
int main(int c, char** v) { return vt::vt_main(c, v, run); }
