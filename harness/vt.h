// Replay harness framework: a command interpreter over the real library.
// Input: a file of commands, one per line (tokens separated by blanks); a blank
// line ends a trace.  Output: one JSON event per command, "=" after each trace.
// Every double is logged exactly, as a C hexadecimal float.
#ifndef VT_H
#define VT_H
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace vt {

inline std::string hex(double x) {
  if (x != x) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  char b[64];
  snprintf(b, sizeof b, "%a", x);
  return b;
}

struct Tok {
  std::vector<std::string> t;
  size_t p = 0;
  bool more() const { return p < t.size(); }
  const std::string& s() {
    if (p >= t.size()) { fprintf(stderr, "vt: too few tokens in command:"); for (auto& x : t) fprintf(stderr, " %s", x.c_str()); fprintf(stderr, "\n"); _exit(77); }
    return t[p++];
  }
  double d() {
    const std::string& x = s();
    if (x == "nan") return std::nan("");
    if (x == "inf") return INFINITY;
    if (x == "-inf") return -INFINITY;
    size_t sl = x.find('/');
    if (sl != std::string::npos) return strtod(x.c_str(), 0) / strtod(x.c_str() + sl + 1, 0);
    return strtod(x.c_str(), 0);
  }
  int i() { return (int) strtol(s().c_str(), 0, 10); }
  uint64_t u() { return strtoull(s().c_str(), 0, 10); }
  int64_t l() { return strtoll(s().c_str(), 0, 10); }
  std::vector<double> vd() { int n = i(); std::vector<double> r(n); for (auto& x : r) x = d(); return r; }
  std::vector<int> vi() { int n = i(); std::vector<int> r(n); for (auto& x : r) x = i(); return r; }
  std::vector<uint64_t> vu() { int n = i(); std::vector<uint64_t> r(n); for (auto& x : r) x = u(); return r; }
};

struct Ev {
  std::string o;
  explicit Ev(const std::string& op) { o = "{\"op\":\"" + op + "\""; }
  Ev& raw(const char* k, const std::string& v) { o += ",\""; o += k; o += "\":"; o += v; return *this; }
  Ev& d(const char* k, double x) { return raw(k, "\"" + hex(x) + "\""); }
  Ev& i(const char* k, long x) { return raw(k, std::to_string(x)); }
  Ev& u(const char* k, uint64_t x) { return raw(k, "\"" + std::to_string(x) + "\""); }
  Ev& z(const char* k, int64_t x) { return raw(k, "\"" + std::to_string(x) + "\""); }
  Ev& b(const char* k, bool x) { return raw(k, x ? "true" : "false"); }
  Ev& s(const char* k, const std::string& x) {
    std::string e;
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') { e += '\\'; e += c; }
      else if (c < 32) { char q[8]; snprintf(q, sizeof q, "\\u%04x", c); e += q; }
      else e += c;
    }
    return raw(k, "\"" + e + "\"");
  }
  template<class V> static std::string arr(const V& v, size_t n) {
    std::string r = "[";
    for (size_t j = 0; j < n; ++j) { if (j) r += ","; r += "\"" + hex((double) v[j]) + "\""; }
    return r + "]";
  }
  template<class V> Ev& v(const char* k, const V& x) { return raw(k, arr(x, x.size())); }
  template<class V> Ev& v(const char* k, const V& x, size_t n) { return raw(k, arr(x, n)); }
  template<class V> Ev& iv(const char* k, const V& x) {
    std::string r = "[";
    for (size_t j = 0; j < x.size(); ++j) { if (j) r += ","; r += std::to_string((long) x[j]); }
    return raw(k, r + "]");
  }
  template<class V> Ev& uv(const char* k, const V& x) {
    std::string r = "[";
    for (size_t j = 0; j < x.size(); ++j) { if (j) r += ","; r += "\"" + std::to_string((uint64_t) x[j]) + "\""; }
    return raw(k, r + "]");
  }
  // matrix as a sequence of rows
  template<class M> Ev& m(const char* k, const M& A) {
    std::string r = "[";
    for (unsigned a = 0; a < A.rows(); ++a) {
      if (a) r += ",";
      r += "[";
      for (unsigned c = 0; c < A.cols(); ++c) { if (c) r += ","; r += "\"" + hex((double) A(a, c)) + "\""; }
      r += "]";
    }
    return raw(k, r + "]");
  }
};

typedef std::function<void(Tok&, std::vector<std::string>&)> Handler;

// run(command tokens): returns the JSON events of the command
typedef void (*Run)(Tok& t, std::vector<Ev>& out);

inline int vt_main(int argc, char** argv, Run run, void (*reset)() = 0) {
  if (argc < 3) { fprintf(stderr, "usage: %s commands events [first trace]\n", argv[0]); return 77; }
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long first = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  long tr = 0;
  bool open = false;
  if (reset) reset();
  unsigned limit = 20;
  if (getenv("VT_LIMIT")) limit = atoi(getenv("VT_LIMIT"));
  while (true) {
    bool ok = (bool) std::getline(in, line);
    if (!ok || line.empty()) {
      if (open) {
        if (tr >= first) { fputs("=\n", out); fflush(out); }
        ++tr; open = false;
        if (reset) reset();
      }
      if (!ok) break;
      continue;
    }
    open = true;
    if (tr < first) continue;
    Tok t;
    std::istringstream ss(line);
    std::string w;
    while (ss >> w) t.t.push_back(w);
    std::vector<Ev> evs;
    alarm(limit);
    errno = 0;
    run(t, evs);
    alarm(0);
    for (auto& e : evs) fprintf(out, "%s}\n", e.o.c_str());
    fflush(out);
  }
  fclose(out);
  return 0;
}

}  // namespace vt
#endif
