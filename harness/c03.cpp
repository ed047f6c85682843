#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev;
using th::PRNG;
typedef std::vector<uint64_t> VU;
struct Reg { PRNG g = PRNG(1); uint64_t sx = 0; VU sp; };
static std::map<std::string, Reg> R;
static void reset() { R.clear(); }

static PRNG make(const std::string& k, uint64_t s, const VU& p) {
  if (k == "lcg") return PRNG::linear_congruential(s);
  if (k == "xoshiro") return PRNG::xoshiro(s);
  if (k == "splitmix") return PRNG::splitmix64(s);
  if (k == "wyrand") return p.empty() ? PRNG::wyrand(s) : PRNG::wyrand(s, p[0], p[1]);
  if (k == "middle") return p.empty() ? PRNG::middlesquare(s) : PRNG::middlesquare(s, p[0]);
  fprintf(stderr, "bad kind\n"); _exit(77);
}
static th::pseudorandom_function fun(const std::string& k) {
  if (k == "lcg") return th::randgen_congruential;
  if (k == "xoshiro") return th::randgen_xoshiro;
  if (k == "splitmix") return th::randgen_splitmix64;
  if (k == "wyrand") return th::randgen_wyrand;
  return th::randgen_middlesquare;
}

static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s();
  if (op == "new") {
    std::string g = t.s(), k = t.s(); uint64_t s = t.u();
    VU p; if (t.more()) p = t.vu();
    Reg& r = R[g];
    r.g = (k == "xoshiro" && t.more()) ? PRNG(s) : make(k, s, p);
    r.sx = r.g.last(); r.sp = r.g.get_param();
    out.push_back(Ev("new").s("g", g).s("kind", k).u("seed", s).uv("p", p).u("x", r.g.last()).uv("q", r.g.get_param()));
  } else if (op == "ctor") {      // the one-argument constructor is the default generator
    std::string g = t.s(); uint64_t s = t.u();
    R[g].g = PRNG(s);
    R[g].sx = R[g].g.last(); R[g].sp = R[g].g.get_param();
    out.push_back(Ev("new").s("g", g).s("kind", "xoshiro").u("seed", s).uv("p", VU()).u("x", R[g].g.last()).uv("q", R[g].g.get_param()));
  } else if (op == "raw") {
    std::string g = t.s(), k = t.s(); uint64_t x = t.u(); VU p = t.vu();
    if (k == "xoshiro" && x == 0) R[g].g = PRNG::xoshiro(p);
    else if (x % 3 == 1) { R[g].g.set_function(fun(k)); R[g].g.set_param(p); R[g].g.seed(x); }
    else if (p.empty()) R[g].g = PRNG(fun(k), x);
    else R[g].g = PRNG(fun(k), x, p);
    R[g].sx = x; R[g].sp = p;
    out.push_back(Ev("raw").s("g", g).s("kind", k).u("x", x).uv("p", p));
  } else if (op == "draw") {
    std::string g = t.s(), how = t.s();
    uint64_t v;
    if (how == "next") v = R[g].g.next();
    else if (how == "call") v = R[g].g();
    else R[g].g >> v;
    out.push_back(Ev("draw").s("g", g).u("r", v));
  } else if (op == "discard") {
    std::string g = t.s(); int n = t.i();
    R[g].g.discard(n);
    out.push_back(Ev("discard").s("g", g).i("n", n));
  } else if (op == "seed") {
    std::string g = t.s(); uint64_t x = t.u();
    R[g].g.seed(x);
    out.push_back(Ev("seed").s("g", g).u("x", x));
  } else if (op == "save") {
    std::string g = t.s();
    R[g].sx = R[g].g.last(); R[g].sp = R[g].g.get_param();
    out.push_back(Ev("state").s("g", g).u("x", R[g].sx).uv("p", R[g].sp));
  } else if (op == "restore") {
    std::string g = t.s();
    if (R[g].sp.size() != R[g].g.get_param().size()) { fprintf(stderr, "restore\n"); _exit(77); }
    R[g].g.seed(R[g].sx); R[g].g.set_param(R[g].sp);
    out.push_back(Ev("seed").s("g", g).u("x", R[g].sx));
    out.push_back(Ev("setp").s("g", g).uv("p", R[g].sp));
  } else if (op == "setpi") {
    std::string g = t.s(); int i = t.i(); uint64_t v = t.u();
    R[g].g.set_param(i, v);
    out.push_back(Ev("setpi").s("g", g).i("i", i).u("v", v));
  } else if (op == "copy") {
    std::string g = t.s(), f = t.s();
    if (R[f].g.last() % 2) { PRNG c(R[f].g.get_function(), R[f].g.last(), R[f].g.get_param()); R[g].g = c; }
    else { PRNG c = R[f].g; R[g].g = c; }
    out.push_back(Ev("copy").s("g", g).s("from", f));
  } else if (op == "state") {
    std::string g = t.s();
    out.push_back(Ev("state").s("g", g).u("x", R[g].g.last()).uv("p", R[g].g.get_param()));
  } else if (op == "fn") {
    std::string k = t.s(); uint64_t x = t.u(); VU p = t.vu(), q = p;
    uint64_t v;
    if (k == "lcg") v = th::randgen_congruential(x, p[0], p[1], p[2]);
    else if (k == "xoshiro") v = th::randgen_xoshiro(q[0], q[1], q[2], q[3]);
    else if (k == "splitmix") v = th::randgen_splitmix64(x);
    else if (k == "wyrand") v = th::randgen_wyrand(q[0], q[1], q[2]);
    else v = th::randgen_middlesquare(x, p[0]);
    out.push_back(Ev("fn").s("kind", k).u("x", x).uv("p", p).u("r", v));
  } else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(77); }
}
int main(int c, char** v) { return vt::vt_main(c, v, run, reset); }
