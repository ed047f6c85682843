// Calls of the Gamma family.
#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using namespace th;
#ifdef THEORETICA_X86
static const bool port = false;
#else
static const bool port = true;
#endif
static void run(Tok& t, std::vector<Ev>& out) {
  std::string f = t.s();
  double x = 0, y = 0, x1 = 0, r; uint64_t n = 0; int err;
  if (f == "gammak" || f == "half") n = t.u(); else x = t.d();
  if (f == "beta") y = t.d();
  if (f == "pi") x1 = x + 1;
  errno = 0;
  if (f == "gammak") r = special::gamma((unsigned) n);
  else if (f == "half") r = special::half_gamma((unsigned) n);
  else if (f == "gamma") r = special::gamma(x);
  else if (f == "lngamma") r = special::lngamma(x);
  else if (f == "pi") r = special::pi(x);
  else if (f == "beta") r = special::beta(x, y);
  else { fprintf(stderr, "bad %s\n", f.c_str()); _exit(77); }
  err = errno;
  Ev e("call"); e.s("f", f).d("x", x).d("y", y).d("x1", x1).i("n", n > 1000000000 ? 1000000000 : n).b("port", port).d("r", r).i("err", err); out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
