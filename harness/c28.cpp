#include "theoretica.h"
#include "algebra/parallel.h"
#include "vt.h"
#include <atomic>
#include <thread>
#include <mutex>
#include <algorithm>
#include <sched.h>
#if defined(_OPENMP) && !defined(SHIM)
#include <omp.h>
#endif
using vt::Tok; using vt::Ev; using vt::hex;
using namespace th;
typedef std::string S;
typedef std::vector<double> VD;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
static int TEAM = 1; static unsigned SEED = 1;
#ifdef SHIM
// A small OpenMP run-time whose synchronisation the sanitizer sees: a team of
// plain threads (or, with PERM, the same bodies one after another in a chosen order).
static thread_local int tid = 0; static int nthr = 1; static std::atomic<long> nxt, last, step, chunk; static std::mutex crit, loopm; static int started = 0;
extern "C" {
int omp_get_thread_num() { return tid; }
int omp_get_num_threads() { return nthr; }
int omp_get_max_threads() { return TEAM; }
void omp_set_num_threads(int) {}
int omp_in_parallel() { return nthr > 1; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  nthr = n ? (int) n : TEAM;
#ifdef PERM
  std::vector<int> o(nthr); for (int i = 0; i < nthr; ++i) o[i] = i; unsigned r = SEED; for (int i = nthr - 1; i > 0; --i) { r = r * 1103515245u + 12345u; std::swap(o[i], o[(r >> 16) % (i + 1)]); }
  for (int i : o) { tid = i; fn(data); } tid = 0;
#else
  std::vector<std::thread> ts; for (int i = 1; i < nthr; ++i) ts.emplace_back([=] { tid = i; fn(data); }); fn(data); for (auto& t : ts) t.join();
#endif
  nthr = 1; started = 0;
}
static void setup(long a, long b, long s, long c) { std::lock_guard<std::mutex> g(loopm); if (!started) { nxt = a; last = b; step = s; chunk = c ? c : 1; started = 1; } }
bool GOMP_loop_dynamic_next(long* a, long* b) { std::lock_guard<std::mutex> g(loopm); long i = nxt; if (step > 0 ? i >= last : i <= last) return false; long j = i + chunk * step; if (step > 0 ? j > last : j < last) j = last; nxt = j; *a = i; *b = j; return true; }
bool GOMP_loop_dynamic_start(long a, long b, long s, long c, long* x, long* y) { setup(a, b, s, c); return GOMP_loop_dynamic_next(x, y); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long a, long b, long s, long c, unsigned f) { started = 0; setup(a, b, s, c); GOMP_parallel(fn, d, n, f); }
#define ALIAS(k) bool GOMP_loop_##k##_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); } \
  bool GOMP_loop_##k##_start(long a, long b, long s, long c, long* x, long* y) { return GOMP_loop_dynamic_start(a, b, s, c, x, y); } \
  void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned n, long a, long b, long s, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, s, c, f); }
ALIAS(guided) ALIAS(nonmonotonic_dynamic) ALIAS(nonmonotonic_guided) ALIAS(static)
bool GOMP_loop_runtime_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long s, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, s, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long s, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, s, 1, f); }
typedef unsigned long long ull;
bool GOMP_loop_ull_dynamic_next(ull* a, ull* b) { long x, y; bool r = GOMP_loop_dynamic_next(&x, &y); if (r) { *a = x; *b = y; } return r; }
bool GOMP_loop_ull_dynamic_start(bool, ull a, ull b, ull s, ull c, ull* x, ull* y) { setup(a, b, s, c); return GOMP_loop_ull_dynamic_next(x, y); }
#define ALIASU(k) bool GOMP_loop_ull_##k##_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); } \
  bool GOMP_loop_ull_##k##_start(bool u, ull a, ull b, ull s, ull c, ull* x, ull* y) { return GOMP_loop_ull_dynamic_start(u, a, b, s, c, x, y); }
ALIASU(guided) ALIASU(nonmonotonic_dynamic) ALIASU(nonmonotonic_guided) ALIASU(static)
void GOMP_loop_end_nowait() {}
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_atomic_start() { crit.lock(); }
void GOMP_atomic_end() { crit.unlock(); }
const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66"; }
}
static int me() { return tid; }
static void team() {}
#elif defined(_OPENMP)
static int me() { return omp_get_thread_num(); }
static void team() { omp_set_num_threads(TEAM); }
#else
static int me() { return 0; }
static void team() {}
#endif
// evaluations: (sequence number, begin/end, element, thread), without ordering the threads
struct Rec1 { long seq; int b, i, t; };
static std::atomic<long> clk; static std::vector<std::vector<Rec1>> logs;
static void note(int b, int i) { int t = me(); if (t < 0 || t >= (int) logs.size()) bad("thread"); Rec1 e{clk.fetch_add(1, std::memory_order_relaxed), b, i, t}; logs[t].push_back(e); }
static void lag(int i) { unsigned r = (SEED + i) * 2654435761u; if (r % 3 == 0) sched_yield(); if (r % 5 == 0) { volatile int k = 0; for (int j = 0; j < (int) (r % 997); ++j) k = k + 1; } }
static S str(real x) { return hex(x); }
static S str(const complex<real>& z) { return hex(z.Re()) + " " + hex(z.Im()); }
static S str(const dual& z) { return hex(z.Re()) + " " + hex(z.Dual()); }
template<class V> static S show(const V& v) { S r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? ",\"" : "\"") + str(v[i]) + "\""; return r + "]"; }
template<class V> static void elem(const S& f, const V& x, int n, real a, Ev& e) {
  V r, q; q.resize(x.size());
#define FN(name) if (f == #name) { r = parallel::name(x); for (size_t i = 0; i < x.size(); ++i) q[i] = th::name(x[i]); } else
  FN(square) FN(cube) FN(abs) FN(sqrt) FN(cbrt) FN(exp) FN(ln) FN(log2) FN(log10) FN(sin) FN(cos) FN(tan) FN(cot) FN(asin) FN(acos) FN(atan) FN(sinh) FN(cosh) FN(tanh) FN(coth)
  if (f == "pow") { r = parallel::pow(x, n); for (size_t i = 0; i < x.size(); ++i) q[i] = th::pow(x[i], n); } else
  if (f == "powf") { r = parallel::powf(x, a); for (size_t i = 0; i < x.size(); ++i) q[i] = th::powf(x[i], a); } else bad(f);
  e.raw("r", show(r)).raw("q", show(q));
}
template<class V> static void elem2(const S& f, const V& x, int n, Ev& e) {
  V r, q; q.resize(x.size());
  FN(square) FN(cube) FN(sqrt) FN(exp) FN(ln) FN(sin) FN(cos) FN(tan) FN(sinh) FN(cosh) FN(tanh)
  if (f == "pow") { r = parallel::pow(x, n); for (size_t i = 0; i < x.size(); ++i) q[i] = th::pow(x[i], n); } else bad(f);
  e.raw("r", show(r)).raw("q", show(q));
}
template<class V> static void elem3(const S& f, const V& x, int n, Ev& e) {
  V r, q; q.resize(x.size());
  FN(square) FN(cube) FN(sqrt) FN(exp) FN(ln) FN(sin) FN(cos) FN(tan)
  if (f == "pow") { r = parallel::pow(x, n); for (size_t i = 0; i < x.size(); ++i) q[i] = th::pow(x[i], n); } else bad(f);
  e.raw("r", show(r)).raw("q", show(q));
}
template<class V> static void apply(int n, std::vector<Ev>& out) {
  V x; x.resize(n); for (int i = 0; i < n; ++i) x[i] = i + 1;
  logs.assign(TEAM + 1, {}); clk = 0;
  V r = parallel::apply_function([](real y) { int i = (int) y; note(1, i); lag(i); real z = y * y + 0.5; note(0, i); return z; }, x);
  Ev c("call"); c.i("n", n).i("team", TEAM); out.push_back(c);
  std::vector<Rec1> all; for (auto& l : logs) all.insert(all.end(), l.begin(), l.end()); std::sort(all.begin(), all.end(), [](const Rec1& a, const Rec1& b) { return a.seq < b.seq; });
  for (auto& k : all) { Ev e(k.b ? "begin" : "end"); e.i("i", k.i).i("t", k.t); out.push_back(e); }
  VD q; for (int i = 1; i <= n; ++i) q.push_back((real) i * i + 0.5); Ev e("ret"); e.raw("r", show(r)).raw("q", show(q)); out.push_back(e);
}
static void run(Tok& t, std::vector<Ev>& out) {
  S op = t.s(); TEAM = t.i(); SEED = t.i(); team();
  if (op == "apply") { S k = t.s(); int n = t.i(); if (k == "std") apply<VD>(n, out); else if (k == "fix") apply<vec<real, 7>>(7, out); else apply<vec<real>>(n, out); return; }
  Ev e("elem"); S k = t.s(), f = t.s(); int n = t.i(); real a = t.d(); VD x = t.vd(); e.s("k", k).s("f", f).i("team", TEAM);
  if (k == "std") { VD y = x; elem(f, y, n, a, e); e.raw("x", show(x)).raw("y", show(y)); }
  else if (k == "vec") { vec<real> y(x.size()); for (size_t i = 0; i < x.size(); ++i) y[i] = x[i]; elem(f, y, n, a, e); e.raw("x", show(x)).raw("y", show(y)); }
  else if (k == "cplx") { std::vector<complex<real>> z, y; for (size_t i = 0; i + 1 < x.size(); i += 2) z.push_back(complex<real>(x[i], x[i + 1])); y = z; elem3(f, y, n, e); e.raw("x", show(z)).raw("y", show(y)); }
  else if (k == "dual") { std::vector<dual> z, y; for (size_t i = 0; i + 1 < x.size(); i += 2) z.push_back(dual(x[i], x[i + 1])); y = z; elem2(f, y, n, e); e.raw("x", show(z)).raw("y", show(y)); }
  else bad(k);
  out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] {}); }
