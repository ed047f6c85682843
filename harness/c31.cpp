// Values as text: conversion to strings, printing, reading lines.
#include "theoretica.h"
#include "utility.h"
#include "vt.h"
#include <iostream>
using vt::Tok; using vt::Ev;
using namespace th;
static const char* SEP[] = {", ", " ", ";", "", "\t", " | ", "--"};
static const char* SYM[] = {"x", "y", "e", "eps", "e1", "e2", "_a", "T"};
static const char* EXPN[] = {"^", "**", "e2", "E", "_"};
static std::istringstream* in = 0;
static std::string word(const std::string& w) {           // "~" is empty, "_" a blank
  if (w == "~") return "";
  std::string r = w; for (auto& c : r) if (c == '_') c = ' '; return r;
}
static std::string strs(const std::vector<std::string>& v) {
  Ev e("x"); std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) { Ev q(""); q.o = ""; q.s("k", v[i]); if (i) o += ","; o += q.o.substr(q.o.find(':') + 1); }
  return o + "]";
}
static std::string rowsof(const std::vector<std::vector<double>>& m) {
  std::string o = "["; for (size_t i = 0; i < m.size(); ++i) { if (i) o += ","; o += Ev::arr(m[i], m[i].size()); } return o + "]";
}
struct Capture { std::ostringstream s; std::streambuf* old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
template<class T> static void both(Ev& e, T& x, bool dflt, const std::string& s) {
  std::ostringstream o; o << x; std::string cv = (std::string) x;
  e.s("s", s).s("o", o.str()).s("cv", cv).b("dflt", dflt);
}
template<unsigned N> static vec<real, N> fixv(const std::vector<double>& v) { vec<real, N> r; for (unsigned i = 0; i < N; ++i) r[i] = v[i]; return r; }
template<unsigned N> static void vecN(Ev& e, const std::vector<double>& v, bool d, const std::string& sep, bool par) { auto x = fixv<N>(v); both(e, x, d, d ? x.to_string() : x.to_string(sep, par)); }
template<unsigned N, unsigned K> static void matN(Ev& e, const std::vector<std::vector<double>>& m, bool d, const std::string& sep, bool par) {
  mat<real, N, K> x; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < K; ++j) x(i, j) = m[i][j];
  both(e, x, d, d ? x.to_string() : x.to_string(sep, par));
}
static std::vector<std::vector<double>> rows(Tok& t) { int n = t.i(), k = t.i(); std::vector<std::vector<double>> m(n, std::vector<double>(k)); for (auto& r : m) for (auto& x : r) x = t.d(); return m; }
static bool text(Tok& t, Ev& e) {
  std::string f = t.s(); e.s("f", f); bool d = t.i();
  if (f == "vec" || f == "fvec" ) {
    std::string sep = SEP[t.i()]; bool par = t.i(); auto v = t.vd(); if (d) { sep = ", "; par = true; }
    e.v("v", v).s("sep", sep).b("par", par);
    if (f == "vec") { vec<real> x; for (double y : v) x.push(y); both(e, x, d, d ? x.to_string() : x.to_string(sep, par)); }
    else { e.o.replace(e.o.find("fvec"), 4, "vec"); if (v.size() == 1) vecN<1>(e, v, d, sep, par); else if (v.size() == 2) vecN<2>(e, v, d, sep, par); else if (v.size() == 3) vecN<3>(e, v, d, sep, par); else { v.resize(5); vecN<5>(e, v, d, sep, par); } }
  } else if (f == "veci") {
    std::string sep = SEP[t.i()]; bool par = t.i(); auto v = t.vi(); if (d) { sep = ", "; par = true; }
    vec<int> x; for (int y : v) x.push(y); e.iv("c", v).s("sep", sep).b("par", par); both(e, x, d, d ? x.to_string() : x.to_string(sep, par));
  } else if (f == "vecc") {
    std::string sep = SEP[t.i()]; bool par = t.i(); auto m = rows(t); if (d) { sep = ", "; par = true; }
    vec<complex<>> x; for (auto& r : m) x.push(complex<>(r[0], r[1])); e.raw("m", rowsof(m)).s("sep", sep).b("par", par); both(e, x, d, d ? x.to_string() : x.to_string(sep, par));
  } else if (f == "mat" || f == "fmat") {
    std::string sep = SEP[t.i()]; bool par = t.i(); auto m = rows(t); if (d) { sep = ", "; par = true; }
    e.raw("m", rowsof(m)).s("sep", sep).b("par", par);
    if (f == "mat") { mat<real> x(m.size(), m[0].size()); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) x(i, j) = m[i][j]; both(e, x, d, d ? x.to_string() : x.to_string(sep, par)); }
    else { e.o.replace(e.o.find("fmat"), 4, "mat"); if (m.size() == 2 && m[0].size() == 2) matN<2, 2>(e, m, d, sep, par); else if (m.size() == 2) matN<2, 3>(e, m, d, sep, par); else if (m.size() == 1) matN<1, 4>(e, m, d, sep, par); else matN<3, 2>(e, m, d, sep, par); }
  } else if (f == "poly") {
    std::string x = SYM[t.i()], ex = EXPN[t.i()]; auto v = t.vd(); if (d) { x = "x"; ex = "^"; }
    polynomial<real> p; p.coeff.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) p.coeff[i] = v[i];
    e.v("v", v).s("x", x).s("ex", ex); both(e, p, d, d ? p.to_string() : p.to_string(x, ex));
  } else if (f == "complex") { auto v = t.vd(); complex<> z(v[0], v[1]); e.v("v", v); both(e, z, true, z.to_string()); }
  else if (f == "quat") { auto v = t.vd(); quat<> q(v[0], v[1], v[2], v[3]); e.v("v", v); both(e, q, true, q.to_string()); }
  else if (f == "phasor") { auto v = t.vd(); phasor<> p(v[0], v[1]); std::vector<double> w = {p.modulus, p.phase}; e.v("v", w); both(e, p, true, p.to_string()); }
  else if (f == "ratio") { auto v = t.vi(); ratio<int> r(v[0], v[1]); e.iv("c", v); both(e, r, true, r.to_string()); }
  else if (f == "dual") { std::string x = SYM[t.i()]; if (d) x = "e"; auto v = t.vd(); dual z(v[0], v[1]); e.v("v", v).s("x", x); both(e, z, d, d ? z.to_string() : z.to_string(x)); }
  else if (f == "dual2") { std::string x = SYM[t.i()], y = SYM[t.i()]; if (d) { x = "e1"; y = "e2"; } auto v = t.vd(); dual2 z(v[0], v[1], v[2]); e.v("v", v).s("x", x).s("ex", y); both(e, z, d, d ? z.to_string() : z.to_string(x, y)); }
  else if (f == "multidual") { std::string x = SYM[t.i()]; if (d) x = "e"; auto v = t.vd(); multidual<3> z(v[0], fixv<3>({v[1], v[2], v[3]})); e.v("v", v).s("x", x); both(e, z, d, d ? z.to_string() : z.to_string(x)); }
  else if (f == "error") {
    std::string k = t.s(), fn = t.s(), file = t.s(); int n = t.i(); double x = t.d(); std::vector<double> v = {x};
    std::map<std::string, MATH_ERRCODE> K = {{"none", NO_ERROR}, {"div", DIV_BY_ZERO}, {"domain", OUT_OF_DOMAIN}, {"range", OUT_OF_RANGE}, {"imposs", IMPOSSIBLE_OPERATION}, {"conv", NO_ALGO_CONVERGENCE}, {"arg", INVALID_ARGUMENT}};
#if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
    math_exception m(K[k], fn, file, n, x); e.s("kind", k).s("fn", fn).s("file", file).i("n", n).v("v", v).s("what", m.what()); both(e, m, true, m.to_string());
#else
    return false;
#endif
  } else if (f == "model") {
    int n = t.i(); auto v = t.vd(); auto m = rows(t); regression::linear_model q; q.A = v[0]; q.B = v[1]; q.sigma_A = v[2]; q.sigma_B = v[3]; q.err = v[4]; q.chi_squared = v[5]; q.p_value = v[6]; q.ndf = n;
    q.covar_mat.resize(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) q.covar_mat(i, j) = m[i][j];
    e.i("n", n).v("v", v).raw("m", rowsof(m)); both(e, q, true, q.to_string());
  } else if (f == "hist") {
    std::string sep = SEP[t.i()]; bool norm = t.i(), low = t.i(); int bins = t.i(); double lo = t.d(), hi = t.d(); auto v = t.vd();
    if (d) { sep = " "; norm = true; low = false; }
    histogram h(bins, lo, hi); for (double x : v) h.insert(x);
    std::vector<double> p, q; std::vector<int> c; real w = (hi - lo) / bins; for (int i = 0; i < bins; ++i) { p.push_back(lo + (i + (low ? 0.0 : 0.5)) * w); c.push_back(h[i]); q.push_back(h.number() ? h[i] / (double) h.number() : 0.0); }
    e.s("sep", sep).b("norm", norm).b("low", low).d("lo", lo).d("hi", hi).iv("c", c).v("p", p).v("q", q).i("n", h.number()); both(e, h, d, d ? h.to_string() : h.to_string(sep, norm, low));
  } else if (f == "ode") {
    std::string sep = SEP[t.i()]; if (d) sep = " "; auto ts = t.vd(); auto m = rows(t); ode::ode_solution_t<vec<real>> q;
    for (double x : ts) q.t.push(x); for (auto& r : m) { vec<real> x; for (double y : r) x.push(y); q.x.push(x); }
    e.v("t", ts).raw("m", rowsof(m)).s("sep", sep);
    errno = 0; try { std::string s = d ? q.to_string() : q.to_string(sep); int er = errno; both(e, q, d, s); e.i("err", er); } catch (...) { e.s("s", "").s("o", "").s("cv", "").b("dflt", d).i("err", 1); }
  } else { fprintf(stderr, "bad %s\n", f.c_str()); _exit(77); }
  return true;
}
// 1 to 4 arguments, numbers ("d") or words
static void print1(const std::string& how, bool ln, std::ostringstream& o, Tok& t, std::vector<std::string>& log, int n) {
  struct A { bool d; double x; std::string s; }; std::vector<A> a;
  for (int i = 0; i < n; ++i) { std::string k = t.s(); A q; q.d = k == "d"; if (q.d) { q.x = t.d(); log.push_back("[\"d\",\"" + vt::hex(q.x) + "\"]"); } else { q.s = word(t.s()); Ev z(""); z.o = ""; z.s("k", q.s); log.push_back("[\"s\"," + z.o.substr(z.o.find(':') + 1) + "]"); } a.push_back(q); }
  Capture* c = how == "cout" ? new Capture : 0;
#define GO(...) do { if (c) { if (ln) println(__VA_ARGS__); else print(__VA_ARGS__); } else { if (ln) fprintln(o, __VA_ARGS__); else fprint(o, __VA_ARGS__); } } while (0)
  unsigned m = 0; for (int i = 0; i < n; ++i) m |= a[i].d << i;
  if (n == 0) { if (c) println(); else o << "\n"; }
  else if (n == 1) { if (m) GO(a[0].x); else GO(a[0].s); }
  else if (n == 2) { if (m == 0) GO(a[0].s, a[1].s); else if (m == 1) GO(a[0].x, a[1].s); else if (m == 2) GO(a[0].s, a[1].x); else GO(a[0].x, a[1].x); }
  else if (n == 3) { if (m == 7) GO(a[0].x, a[1].x, a[2].x); else if (m == 5) GO(a[0].x, a[1].s, a[2].x); else if (m == 0) GO(a[0].s, a[1].s, a[2].s); else _exit(77); }
  else { if (m == 15) GO(a[0].x, a[1].x, a[2].x, a[3].x); else if (m == 6) GO(a[0].s, a[1].x, a[2].x, a[3].s); else _exit(77); }
  if (c) { o << c->s.str(); delete c; }
}
static void run(Tok& t, std::vector<Ev>& out) {
  std::string op = t.s();
  if (op == "text") { Ev e("text"); if (text(t, e)) out.push_back(e); }
  else if (op == "print") {
    std::string how = t.s(); bool ln = t.i(); int n = t.i(); std::ostringstream o; std::vector<std::string> log; print1(how, ln, o, t, log, n);
    std::string l = "["; for (size_t i = 0; i < log.size(); ++i) l += (i ? "," : "") + log[i];
    Ev e("print"); e.b("ln", ln).raw("a", l + "]").s("s", o.str()); out.push_back(e);
  } else if (op == "open") {
    bool nl = t.i(); int n = t.i(); std::vector<std::string> l; std::string all;
    for (int i = 0; i < n; ++i) l.push_back(word(t.s()));
    for (int i = 0; i < n; ++i) all += l[i] + (i + 1 < n || nl ? "\n" : "");
    if (!nl && n && l.back() == "") l.pop_back();
    delete in; in = new std::istringstream(all);
    Ev e("open"); e.raw("lines", strs(l)); out.push_back(e);
  } else if (op == "read") {
    std::string how = t.s(), term = word(t.s()); std::vector<double> r;
    if (!in) in = new std::istringstream("");
    { Capture c;
      if (how == "real") { vec<real> v = term == "" ? readln(*in) : readln(*in, term); for (auto x : v) r.push_back(x); }
      else if (how == "cin") { auto* old = std::cin.rdbuf(in->rdbuf()); std::cin.clear(); vec<real> v = term == "" ? readln() : readln(term); std::cin.rdbuf(old); for (auto x : v) r.push_back(x); }
      else { vec<int> v = readln<int>(*in, term, [](std::string s) { if (s[0] == '!') throw std::runtime_error("no"); return (int) s.size(); }); for (auto x : v) r.push_back(x); } }
    Ev e("read"); e.s("how", how == "cin" ? "real" : how).s("term", term).v("r", r); out.push_back(e);
  } else if (op == "rest") {
    std::vector<std::string> l; std::string s; if (in) { in->clear(); while (std::getline(*in, s)) l.push_back(s); }
    Ev e("rest"); e.raw("r", strs(l)); out.push_back(e);
  } else { fprintf(stderr, "bad %s\n", op.c_str()); _exit(77); }
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] { delete in; in = 0; }); }
