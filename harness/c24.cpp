#include "theoretica.h"
#include "vt.h"
#include <memory>
#include <sstream>
#include <algorithm>
using vt::Tok; using vt::Ev; using vt::hex;
using th::real; using th::vec; using th::histogram;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static std::unique_ptr<histogram> h; static double lo, hi;
static std::vector<int> bins() { auto b = h->bins(); return std::vector<int>(b.begin(), b.end()); }
static S ints(const std::vector<int>& v) { S s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(); Ev e(op);
  if (op == "new") { int n = t.i(); lo = t.d(); hi = t.d(); h.reset(new histogram(n, lo, hi)); e.i("n", n).d("lo", lo).d("hi", hi).raw("bins", ints(bins())); }
  else if (op == "data") {
    S k = t.s(); int n = t.i(); VD x = t.vd(); 
    if (k == "std") h.reset(n ? new histogram(x, n) : new histogram(x)); else { vec<real> v(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; h.reset(n ? new histogram(v, n) : new histogram(v)); }
    std::vector<int> idx; for (double y : x) idx.push_back(h->index(y)); lo = *std::min_element(x.begin(), x.end()); hi = *std::max_element(x.begin(), x.end());
    e.i("n", n).v("x", x).raw("idx", ints(idx)).raw("bins", ints(bins()));
  } else if (op == "ins") {
    real x = t.d(); h->insert(x); int idx = x >= lo && x <= hi ? (int) h->index(x) : -1; e.d("x", x).i("idx", idx).d("val", (*h)(x)).raw("bins", ints(bins()));
  } else if (op == "val") { real x = t.d(); e.d("x", x).d("val", (*h)(x)); }
  else if (op == "copy") { histogram g(*h); histogram k(1, 0, 1); k = g; g.insert(lo); h.reset(new histogram(k)); return; }
  else if (op == "stats") {
    std::vector<int> at; for (size_t i = 0; i < h->bins().size(); ++i) at.push_back((*h)[i]);
    e.raw("bins", ints(bins())).raw("at", ints(at)).i("number", h->number()).d("mean", h->mean()).d("tss", h->tss()).d("max", h->max()).d("min", h->min());
    e.d("mean2", th::stats::mean(*h)).d("tss2", th::stats::tss(*h)).d("max2", th::max(*h)).d("min2", th::min(*h));
    errno = 0; real v = th::stats::variance(*h); int er = errno; real sd = th::stats::stdev(*h); e.i("err", er).d("var", v).d("sd", sd);
  } else if (op == "text") {
    int norm = t.i(), lower = t.i(); S sep = norm ? "," : ";"; S s; if (norm && !lower && t.i()) { std::ostringstream o; o << *h; s = o.str(); sep = " "; } else s = h->to_string(sep, norm, lower);
    S js = "["; std::istringstream in(s); S line; bool first = true;
    while (std::getline(in, line)) { size_t p = line.find(sep, 1); if (p == S::npos) bad("text " + line); js += (first ? "[\"" : ",[\"") + hex(strtod(line.substr(0, p).c_str(), 0)) + "\",\"" + hex(strtod(line.substr(p + sep.size()).c_str(), 0)) + "\"]"; first = false; }
    e.b("norm", norm).b("lower", lower).raw("rows", js + "]");
  } else bad(op);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] { h.reset(new histogram(1, 0, 1)); lo = 0; hi = 1; }); }
